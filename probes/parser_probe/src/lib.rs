//! Roots for the analysis: one non-generic function per public entry point of `parser` a property speaks
//! about.  Nothing here is ever executed.
#![allow(clippy::all)]
#![feature(allocator_api, try_trait_v2)]
pub mod models;
use chumsky::{
    error::EmptyErr,
    extension::v1::{Ext, ExtParser},
    extra,
    input::InputRef,
    prelude::*,
    util::MaybeRef,
};
use input_tree::node::*;
use parser::{
    parse_module::*, parse_modules::*, parser::pratt_parser::*, parser::MathParser, rule_collection::*,
    rule_collections::{
        arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules, collections_rules::CollectionsRules,
        comparison_rules::ComparisonRules, core_rules::CoreRules, function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
    },
    syntax_tree::*,
};
use std::ops::Range;
use std::rc::Rc;

// ---- operator precedence -----------------------------------------------------------------------
/// A token, described by which of the parsers accept it.
#[derive(Clone, Copy)]
pub struct Tok {
    pub id: usize,
    pub atom: bool,
    pub open: bool,
    pub infix: [bool; 2],
    pub prefix: [bool; 2],
    pub postfix: [bool; 2],
    pub ends: [bool; 2],
}
pub enum Tree {
    Missing(usize),
    Unknown(usize, usize),
    Atom(usize),
    Group(usize, Box<Tree>, usize),
    Gap(usize, Box<Tree>, Box<Tree>),
    Infix(usize, usize, Box<Tree>, Box<Tree>),
    Prefix(usize, usize, Box<Tree>),
    Postfix(usize, usize, Box<Tree>),
}
type In<'a> = &'a [Tok];
type Ex = extra::Full<EmptyErr, (), ()>;

#[derive(Clone, Copy)]
pub enum Which {
    Atom,
    Open,
    Infix(usize),
    Prefix(usize),
    Postfix(usize),
    Ends(usize),
}
fn accepts(t: &Tok, w: Which) -> bool {
    match w {
        Which::Atom => t.atom,
        Which::Open => t.open,
        Which::Infix(i) => t.infix[i],
        Which::Prefix(i) => t.prefix[i],
        Which::Postfix(i) => t.postfix[i],
        Which::Ends(i) => t.ends[i],
    }
}
#[derive(Clone, Copy)]
pub struct Accept_(Which);
impl<'a> ExtParser<'a, In<'a>, usize, Ex> for Accept_ {
    fn parse(&self, inp: &mut InputRef<'a, '_, In<'a>, Ex>) -> Result<usize, EmptyErr> {
        match inp.next_maybe() {
            Some(t) if accepts(t.as_ref(), self.0) => Ok(t.as_ref().id),
            _ => Err(EmptyErr),
        }
    }
}
impl<'a> ExtParser<'a, In<'a>, (), Ex> for Accept_ {
    fn parse(&self, inp: &mut InputRef<'a, '_, In<'a>, Ex>) -> Result<(), EmptyErr> {
        match inp.next_maybe() {
            Some(t) if accepts(t.as_ref(), self.0) => Ok(()),
            _ => Err(EmptyErr),
        }
    }
}
type Accept = Ext<Accept_>;
pub struct AtomParser_<'a>(RcOrWeak<Pratt<'a>>);
impl<'a> ExtParser<'a, In<'a>, Tree, Ex> for AtomParser_<'a> {
    fn parse(&self, inp: &mut InputRef<'a, '_, In<'a>, Ex>) -> Result<Tree, EmptyErr> {
        let before = inp.save();
        match inp.next_maybe() {
            Some(t) if t.as_ref().atom => return Ok(Tree::Atom(t.as_ref().id)),
            _ => {}
        }
        inp.rewind(before);
        match inp.next_maybe() {
            Some(t) if t.as_ref().open => {
                let inner: Tree = inp.parse(&call_pratt_parser(self.0.clone(), (0, Strength::Weak), Ext(Accept_(Which::Ends(1)))))?;
                match inp.next_maybe() {
                    Some(c) if c.as_ref().ends[1] => Ok(Tree::Group(t.as_ref().id, Box::new(inner), c.as_ref().id)),
                    _ => Err(EmptyErr),
                }
            }
            _ => Err(EmptyErr),
        }
    }
}
pub struct Build(usize);
impl InfixBuilder<usize, Tree> for Build {
    fn build(&self, op: usize, c: (Tree, Tree)) -> Tree {
        Tree::Infix(self.0, op, Box::new(c.0), Box::new(c.1))
    }
}
impl PrefixBuilder<usize, Tree> for Build {
    fn build(&self, op: usize, right: Tree) -> Tree {
        Tree::Prefix(self.0, op, Box::new(right))
    }
}
impl PostfixBuilder<usize, Tree> for Build {
    fn build(&self, op: usize, left: Tree) -> Tree {
        Tree::Postfix(self.0, op, Box::new(left))
    }
}
type Symbols<'a> = PrattSymbolParsers<Ext<AtomParser_<'a>>, Accept, Accept, Accept, Build, Build, Build, usize>;
pub type Pratt<'a> = PrattParser<'a, In<'a>, Tree, Ex, Symbols<'a>, Accept>;

/// Strength of each operator, and of the operator assumed where one is missing.
pub struct Table {
    pub infix: [u16; 2],
    pub right: [bool; 2],
    pub prefix: [u16; 2],
    pub postfix: [u16; 2],
    pub missing: BindingPower,
}
fn infix_op(t: &Table, i: usize) -> OpParser<Accept, Build> {
    if t.right[i] {
        right_infix(Ext(Accept_(Which::Infix(i))), t.infix[i], Build(i))
    } else {
        left_infix(Ext(Accept_(Which::Infix(i))), t.infix[i], Build(i))
    }
}
fn make<'a>(t: &Table, me: RcOrWeak<Pratt<'a>>) -> Pratt<'a> {
    PrattParser::new(
        Ext(AtomParser_(me)),
        vec![infix_op(t, 0), infix_op(t, 1)],
        vec![prefix(Ext(Accept_(Which::Prefix(0))), t.prefix[0], Build(0)), prefix(Ext(Accept_(Which::Prefix(1))), t.prefix[1], Build(1))],
        vec![postfix(Ext(Accept_(Which::Postfix(0))), t.postfix[0], Build(0)), postfix(Ext(Accept_(Which::Postfix(1))), t.postfix[1], Build(1))],
        PrattParseErrorHandler {
            make_missing_atom: Rc::new(|s: SimpleSpan| Tree::Missing(s.end)),
            make_missing_operator: Rc::new(|s: SimpleSpan, (a, b)| Tree::Gap(s.start, Box::new(a), Box::new(b))),
            missing_operator_binding_power: t.missing,
            make_unknown_atom: Rc::new(|s: SimpleSpan, t: MaybeRef<'a, Tok>| Tree::Unknown(s.start, t.into_inner().id)),
        },
    )
}
#[derive(Clone)]
pub struct Rest_;
impl<'a> ExtParser<'a, In<'a>, usize, Ex> for Rest_ {
    fn parse(&self, inp: &mut InputRef<'a, '_, In<'a>, Ex>) -> Result<usize, EmptyErr> {
        let mut n = 0;
        while inp.next_maybe().is_some() {
            n += 1;
        }
        Ok(n)
    }
}
/// The tree for the tokens in front of the ending token, and how many tokens were left over.
pub fn pratt(tokens: &[Tok], t: &Table) -> Option<(Tree, usize)> {
    pratt_parse_recursive(Ext(Accept_(Which::Ends(0))), |me| make(t, me)).then(Ext(Rest_)).parse(tokens).into_output()
}
/// The same, started with a minimal binding power as a rule inside a formula may do.
pub fn pratt_above(tokens: &[Tok], t: &Table, min: (u16, Strength)) -> Option<(Tree, usize)> {
    let p: Rc<Pratt> = Rc::new_cyclic(|w| make(t, RcOrWeak::Weak(w.clone())));
    call_pratt_parser(RcOrWeak::Owned(p), min, Ext(Accept_(Which::Ends(0)))).then(Ext(Rest_)).parse(tokens).into_output()
}
// ---- syntax nodes ------------------------------------------------------------------------------
pub fn syntax_node_new(name: SyntaxNodeNameId, range: Range<usize>, children: SyntaxNodeChildren) -> SyntaxNode {
    SyntaxNode::new(name, range, children)
}
pub fn syntax_node_range(n: &SyntaxNode) -> Range<usize> {
    n.range()
}
pub fn syntax_node_build(b: SyntaxNodeBuilder, name: SyntaxNodeNameId, range: Range<usize>) -> SyntaxNode {
    b.build(name, range)
}
pub fn builder_new(c: SyntaxNodeChildren) -> SyntaxNodeBuilder {
    SyntaxNodeBuilder::new(c)
}
pub fn builder_set_value(b: SyntaxNodeBuilder, v: Vec<u8>) -> SyntaxNodeBuilder {
    b.set_value(v)
}
pub fn builder_leaf(s: Vec<String>, t: LeafNodeType) -> SyntaxNodeBuilder {
    SyntaxNodeBuilder::new_leaf_node(s, t)
}
pub fn infix_build(b: &InfixBuilderImpl, op: SyntaxNode, l: SyntaxNode, r: SyntaxNode) -> SyntaxNode {
    b.build(op, (l, r))
}
pub fn prefix_build(b: &PrefixBuilderImpl, op: SyntaxNode, r: SyntaxNode) -> SyntaxNode {
    b.build(op, r)
}
pub fn postfix_build(b: &PostfixBuilderImpl, op: SyntaxNode, l: SyntaxNode) -> SyntaxNode {
    b.build(op, l)
}
pub fn missing_token(b: &BuiltInRules, at: usize) -> SyntaxNode {
    b.error_missing_token(at)
}
pub fn missing_operator(b: &BuiltInRules, range: Range<usize>, l: SyntaxNode, r: SyntaxNode) -> SyntaxNode {
    b.error_missing_operator(range, l, r)
}
pub fn unknown_token(b: &BuiltInRules, range: Range<usize>, values: &[InputNode]) -> SyntaxNode {
    b.error_unknown_token(range, values)
}
pub fn nothing_node(b: &BuiltInRules, at: usize) -> SyntaxNode {
    b.nothing_node(at)
}
pub fn whitespace_node(b: &BuiltInRules, s: Vec<String>, range: Range<usize>) -> SyntaxNode {
    b.whitespace_node(s, range)
}
pub fn whitespaces_node(b: &BuiltInRules, before: Option<SyntaxNode>, n: SyntaxNode, after: Option<SyntaxNode>, range: Range<usize>) -> SyntaxNode {
    b.whitespaces_node(before, n, after, range)
}
// ---- names -------------------------------------------------------------------------------------
pub fn map_new() -> SyntaxNodeNameMap {
    SyntaxNodeNameMap::new()
}
pub fn map_add(m: &mut SyntaxNodeNameMap, p: PathIdentifier) -> SyntaxNodeNameId {
    m.add(p)
}
pub fn map_get(m: &SyntaxNodeNameMap, p: &PathIdentifier) -> Option<SyntaxNodeNameId> {
    m.get(p)
}
pub fn map_get_reverse(m: &SyntaxNodeNameMap, id: SyntaxNodeNameId) -> Option<PathIdentifier> {
    m.get_reverse(id).cloned()
}
pub fn modules_new() -> ParseModules {
    ParseModules::new()
}
pub fn modules_map(m: &ParseModules) -> &SyntaxNodeNameMap {
    m.get_rule_name_map()
}
// ---- rules -------------------------------------------------------------------------------------
pub fn built_in_rules(m: &mut ParseModules) -> BuiltInRules {
    BuiltInRules::new(m)
}
pub fn built_in_table(b: &BuiltInRules) -> &[ParseRule] {
    b.get_rules()
}
// ---- whole parsers -----------------------------------------------------------------------------
pub fn parser_built_in() -> (MathParser, ParseModules) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    (MathParser::new(ParseModuleCollection::new(b.clone(), vec![b])), m)
}
pub fn parser_standard() -> (MathParser, ParseModules) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let core = Rc::new(CoreRules::new(&mut m, &b));
    let arithmetic = Rc::new(ArithmeticRules::new(&mut m));
    let calculus = Rc::new(CalculusRules::new(&mut m));
    let collections = Rc::new(CollectionsRules::new(&mut m));
    let comparison = Rc::new(ComparisonRules::new(&mut m));
    let function = Rc::new(FunctionRules::new(&mut m, &b));
    let logic = Rc::new(LogicRules::new(&mut m));
    let string = Rc::new(StringRules::new(&mut m));
    let all: Vec<Rc<dyn ParseModule>> = vec![b.clone(), core, arithmetic, calculus, collections, comparison, function, logic, string];
    (MathParser::new(ParseModuleCollection::new(b, all)), m)
}
pub fn parse_row<'a>(p: &'a MathParser, row: &'a [InputNode]) -> SyntaxNode {
    p.parse(row)
}
pub fn name_of(m: &ParseModules, id: SyntaxNodeNameId) -> Option<&PathIdentifier> {
    m.get_rule_name_map().get_reverse(id)
}
pub fn path_new(name: Vec<String>) -> PathIdentifier {
    PathIdentifier::new(name)
}

// P02
pub fn print_syntax<'a>(n: &'a SyntaxNode, m: &'a SyntaxNodeNameMap, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(&n.with_display(m), f)
}
pub fn print_leaf(n: &SyntaxLeafNode, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(n, f)
}
pub fn print_path(n: &PathIdentifier, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(n, f)
}
