//! Stand-in for thiserror's derive (the library is not available offline): `Display` and `Error`, and `From`
//! for variants marked `#[from]`.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Error, attributes(error, from, source, backtrace))]
pub fn derive(input: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = input.into_iter().collect();
    let mut name = String::new();
    let mut is_enum = false;
    let mut out = String::new();
    for i in 0..toks.len() {
        if let TokenTree::Ident(id) = &toks[i] {
            let s = id.to_string();
            if (s == "enum" || s == "struct") && name.is_empty() {
                name = toks[i + 1].to_string();
                is_enum = s == "enum";
            }
        }
        if let (TokenTree::Group(g), true) = (&toks[i], is_enum && !name.is_empty()) {
            if g.delimiter() == Delimiter::Brace {
                let body: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut variant = String::new();
                for t in &body {
                    match t {
                        TokenTree::Ident(id) => variant = id.to_string(),
                        TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                            let s = g.stream().to_string();
                            let s = s.trim();
                            for pre in ["#[from]", "# [from]"] {
                                if let Some(t) = s.strip_prefix(pre) {
                                    out += &format!(
                                        "impl ::core::convert::From<{t}> for {name} {{ fn from(e: {t}) -> Self {{ {name}::{variant}(e) }} }}\n"
                                    );
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    out += &format!("impl ::core::fmt::Display for {name} {{ fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ f.write_str(\"error\") }} }}\n");
    out += &format!("impl ::std::error::Error for {name} {{}}\n");
    out.parse().unwrap()
}
