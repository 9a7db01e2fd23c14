//! Stand-in for the part of chumsky the analysed crates use: same names and types, plain backtracking
//! meaning.  The real library is not available offline; without it the compiler cannot type-check the
//! analysed sources.
#![allow(clippy::all)]
use std::marker::PhantomData;
use std::rc::Rc;

pub mod util {
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum MaybeRef<'a, T> {
        Ref(&'a T),
        Val(T),
    }
    impl<'a, T> MaybeRef<'a, T> {
        pub fn into_inner(self) -> T
        where
            T: Clone,
        {
            match self {
                MaybeRef::Ref(x) => x.clone(),
                MaybeRef::Val(x) => x,
            }
        }
        pub fn as_ref(&self) -> &T {
            match self {
                MaybeRef::Ref(x) => x,
                MaybeRef::Val(x) => x,
            }
        }
    }
    impl<'a, T> std::ops::Deref for MaybeRef<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.as_ref()
        }
    }
}

pub mod span {
    use std::ops::Range;
    pub trait Span {
        type Context;
        type Offset: Clone;
        fn new(context: Self::Context, range: Range<Self::Offset>) -> Self;
        fn start(&self) -> Self::Offset;
        fn end(&self) -> Self::Offset;
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct SimpleSpan<T = usize, C = ()> {
        pub start: T,
        pub end: T,
        pub context: C,
    }
    impl<T> SimpleSpan<T> {
        pub fn new(start: T, end: T) -> Self {
            SimpleSpan { start, end, context: () }
        }
        pub fn into_range(self) -> Range<T> {
            self.start..self.end
        }
    }
    impl<T: Clone, C: Clone> Span for SimpleSpan<T, C> {
        type Context = C;
        type Offset = T;
        fn new(context: C, range: Range<T>) -> Self {
            SimpleSpan { start: range.start, end: range.end, context }
        }
        fn start(&self) -> T {
            self.start.clone()
        }
        fn end(&self) -> T {
            self.end.clone()
        }
    }
}

pub mod input {
    use super::*;
    use crate::extra::ParserExtra;
    use crate::util::MaybeRef;
    pub trait Input<'a>: 'a {
        type Token;
        type Span: crate::span::Span;
        #[doc(hidden)]
        fn token_at(&self, at: usize) -> Option<MaybeRef<'a, Self::Token>>;
        #[doc(hidden)]
        fn make_span(&self, start: usize, end: usize) -> Self::Span;
    }
    pub trait ValueInput<'a>: Input<'a> {
        #[doc(hidden)]
        fn value_at(&self, at: usize) -> Option<Self::Token>;
    }
    pub trait BorrowInput<'a>: Input<'a> {
        #[doc(hidden)]
        fn borrow_at(&self, at: usize) -> Option<&'a Self::Token>;
    }
    impl<'a, T> Input<'a> for &'a [T] {
        type Token = T;
        type Span = crate::span::SimpleSpan<usize>;
        fn token_at(&self, at: usize) -> Option<MaybeRef<'a, T>> {
            if at < self.len() {
                Some(MaybeRef::Ref(&self[at]))
            } else {
                None
            }
        }
        fn make_span(&self, start: usize, end: usize) -> Self::Span {
            crate::span::SimpleSpan::new(start, end)
        }
    }
    impl<'a, T: Clone> ValueInput<'a> for &'a [T] {
        fn value_at(&self, at: usize) -> Option<T> {
            if at < self.len() {
                Some(self[at].clone())
            } else {
                None
            }
        }
    }
    impl<'a, T> BorrowInput<'a> for &'a [T] {
        fn borrow_at(&self, at: usize) -> Option<&'a T> {
            let s: &'a [T] = self;
            if at < s.len() {
                Some(&s[at])
            } else {
                None
            }
        }
    }
    #[derive(Debug)]
    pub struct Offset<'a, 'parse, I> {
        pub(crate) at: usize,
        pub(crate) phantom: PhantomData<(&'a (), &'parse (), fn(I))>,
    }
    impl<'a, 'parse, I> Clone for Offset<'a, 'parse, I> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<'a, 'parse, I> Copy for Offset<'a, 'parse, I> {}
    impl<'a, 'parse, I> PartialEq for Offset<'a, 'parse, I> {
        fn eq(&self, o: &Self) -> bool {
            self.at == o.at
        }
    }
    impl<'a, 'parse, I> Eq for Offset<'a, 'parse, I> {}
    impl<'a, 'parse, I> PartialOrd for Offset<'a, 'parse, I> {
        fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl<'a, 'parse, I> Ord for Offset<'a, 'parse, I> {
        fn cmp(&self, o: &Self) -> std::cmp::Ordering {
            self.at.cmp(&o.at)
        }
    }
    pub struct Marker<'a, 'parse, I> {
        pub(crate) at: usize,
        pub(crate) phantom: PhantomData<(&'a (), &'parse (), fn(I))>,
    }
    impl<'a, 'parse, I> Clone for Marker<'a, 'parse, I> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<'a, 'parse, I> Copy for Marker<'a, 'parse, I> {}

    pub struct InputRef<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> {
        pub(crate) input: &'parse I,
        pub(crate) at: usize,
        pub(crate) phantom: PhantomData<(&'a (), E)>,
    }
    impl<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
        pub fn offset(&self) -> Offset<'a, 'parse, I> {
            Offset { at: self.at, phantom: PhantomData }
        }
        pub fn save(&self) -> Marker<'a, 'parse, I> {
            Marker { at: self.at, phantom: PhantomData }
        }
        pub fn rewind(&mut self, marker: Marker<'a, 'parse, I>) {
            self.at = marker.at;
        }
        pub fn span_since(&self, before: Offset<'a, 'parse, I>) -> I::Span {
            self.input.make_span(before.at, self.at)
        }
        pub fn peek_maybe(&self) -> Option<MaybeRef<'a, I::Token>> {
            self.input.token_at(self.at)
        }
        pub fn next_maybe(&mut self) -> Option<MaybeRef<'a, I::Token>> {
            let t = self.input.token_at(self.at);
            if t.is_some() {
                self.at += 1;
            }
            t
        }
        pub fn parse<O, P: Parser<'a, I, O, E>>(&mut self, parser: P) -> Result<O, E::Error> {
            parser.go(self)
        }
        pub fn check<O, P: Parser<'a, I, O, E>>(&mut self, parser: P) -> Result<(), E::Error> {
            parser.go(self).map(|_| ())
        }
        pub(crate) fn fail<O>(&mut self, start: usize) -> Result<O, E::Error> {
            let found = self.input.token_at(start);
            let span = self.input.make_span(start, self.at);
            Err(<E::Error as crate::error::Error<'a, I>>::expected_found(None, found, span))
        }
        pub(crate) fn with_extra<E2: ParserExtra<'a, I>, R>(&mut self, f: impl FnOnce(&mut InputRef<'a, 'parse, I, E2>) -> R) -> R {
            let mut other = InputRef { input: self.input, at: self.at, phantom: PhantomData };
            let r = f(&mut other);
            self.at = other.at;
            r
        }
    }
}

pub mod error {
    use crate::input::Input;
    use crate::util::MaybeRef;
    pub trait Error<'a, I: Input<'a>>: Sized {
        fn expected_found<E: IntoIterator<Item = Option<MaybeRef<'a, I::Token>>>>(
            expected: E,
            found: Option<MaybeRef<'a, I::Token>>,
            span: I::Span,
        ) -> Self;
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct EmptyErr;
    impl<'a, I: Input<'a>> Error<'a, I> for EmptyErr {
        fn expected_found<E: IntoIterator<Item = Option<MaybeRef<'a, I::Token>>>>(_: E, _: Option<MaybeRef<'a, I::Token>>, _: I::Span) -> Self {
            EmptyErr
        }
    }
}

pub mod extra {
    use crate::input::Input;
    use std::marker::PhantomData;
    pub trait ParserExtra<'a, I: Input<'a>>: 'a {
        type Error: crate::error::Error<'a, I> + 'a;
        type State: 'a;
        type Context: 'a;
    }
    pub struct Full<E, S, C>(PhantomData<(E, S, C)>);
    pub type Default = Full<crate::error::EmptyErr, (), ()>;
    pub type Err<E> = Full<E, (), ()>;
    impl<'a, I: Input<'a>, E: crate::error::Error<'a, I> + 'a, S: 'a, C: 'a> ParserExtra<'a, I> for Full<E, S, C> {
        type Error = E;
        type State = S;
        type Context = C;
    }
}

use error::Error as _;
use extra::ParserExtra;
use input::{BorrowInput, Input, InputRef, ValueInput};

pub struct ParseResult<T, E> {
    output: Option<T>,
    errs: Vec<E>,
}
impl<T, E> ParseResult<T, E> {
    pub fn into_output_errors(self) -> (Option<T>, Vec<E>) {
        (self.output, self.errs)
    }
    pub fn into_output(self) -> Option<T> {
        self.output
    }
    pub fn into_result(self) -> Result<T, Vec<E>> {
        if self.errs.is_empty() {
            self.output.ok_or(self.errs)
        } else {
            Err(self.errs)
        }
    }
    pub fn has_errors(&self) -> bool {
        !self.errs.is_empty()
    }
    pub fn has_output(&self) -> bool {
        self.output.is_some()
    }
    pub fn output(&self) -> Option<&T> {
        self.output.as_ref()
    }
    pub fn errors(&self) -> std::slice::Iter<'_, E> {
        self.errs.iter()
    }
}

pub trait Parser<'a, I: Input<'a>, O, E: ParserExtra<'a, I> = extra::Default> {
    #[doc(hidden)]
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>;

    fn parse(&self, input: I) -> ParseResult<O, E::Error>
    where
        Self: Sized,
        E::State: Default,
        E::Context: Default,
    {
        let mut inp: InputRef<'a, '_, I, E> = InputRef { input: &input, at: 0, phantom: PhantomData };
        match self.go(&mut inp) {
            Ok(o) => {
                if inp.input.token_at(inp.at).is_some() {
                    let at = inp.at;
                    match inp.fail::<()>(at) {
                        Err(e) => ParseResult { output: None, errs: vec![e] },
                        Ok(()) => ParseResult { output: Some(o), errs: vec![] },
                    }
                } else {
                    ParseResult { output: Some(o), errs: vec![] }
                }
            }
            Err(e) => ParseResult { output: None, errs: vec![e] },
        }
    }
    fn map<U, F: Fn(O) -> U>(self, f: F) -> Map<Self, O, F>
    where
        Self: Sized,
    {
        Map { parser: self, f, phantom: PhantomData }
    }
    fn map_with_span<U, F: Fn(O, I::Span) -> U>(self, f: F) -> MapWithSpan<Self, O, F>
    where
        Self: Sized,
    {
        MapWithSpan { parser: self, f, phantom: PhantomData }
    }
    fn then<U, B: Parser<'a, I, U, E>>(self, other: B) -> Then<Self, B, O, U, E>
    where
        Self: Sized,
    {
        Then { a: self, b: other, phantom: PhantomData }
    }
    fn ignore_then<U, B: Parser<'a, I, U, E>>(self, other: B) -> IgnoreThen<Self, B, O, E>
    where
        Self: Sized,
    {
        IgnoreThen { a: self, b: other, phantom: PhantomData }
    }
    fn then_ignore<U, B: Parser<'a, I, U, E>>(self, other: B) -> ThenIgnore<Self, B, U, E>
    where
        Self: Sized,
    {
        ThenIgnore { a: self, b: other, phantom: PhantomData }
    }
    fn or<B: Parser<'a, I, O, E>>(self, other: B) -> Or<Self, B>
    where
        Self: Sized,
    {
        Or { a: self, b: other }
    }
    fn or_not(self) -> OrNot<Self>
    where
        Self: Sized,
    {
        OrNot { parser: self }
    }
    fn ignored(self) -> Ignored<Self, O>
    where
        Self: Sized,
    {
        Ignored { parser: self, phantom: PhantomData }
    }
    fn to<U: Clone>(self, to: U) -> To<Self, O, U>
    where
        Self: Sized,
    {
        To { parser: self, to, phantom: PhantomData }
    }
    fn filter<F: Fn(&O) -> bool>(self, f: F) -> Filter<Self, F>
    where
        Self: Sized,
    {
        Filter { parser: self, f }
    }
    fn repeated(self) -> Repeated<Self, O, I, E>
    where
        Self: Sized,
    {
        Repeated { parser: self, at_least: 0, at_most: !0, phantom: PhantomData }
    }
    fn with_ctx<Ctx>(self, ctx: Ctx) -> WithCtx<Self, Ctx>
    where
        Self: Sized,
        Ctx: 'a + Clone,
    {
        WithCtx { parser: self, ctx }
    }
    fn boxed<'b>(self) -> Boxed<'a, 'b, I, O, E>
    where
        Self: Sized + 'a + 'b,
    {
        Boxed { inner: Rc::new(self) }
    }
}

impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, T: Parser<'a, I, O, E>> Parser<'a, I, O, E> for &T {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        (**self).go(inp)
    }
}

pub trait IterParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I> = extra::Default> {
    #[doc(hidden)]
    fn items(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Vec<O>, E::Error>;
    fn collect<C: container::Container<O>>(self) -> Collect<Self, O, C>
    where
        Self: Sized,
    {
        Collect { parser: self, phantom: PhantomData }
    }
}

pub mod container {
    pub trait Container<T>: Default {
        fn push(&mut self, item: T);
    }
    impl<T> Container<T> for Vec<T> {
        fn push(&mut self, item: T) {
            Vec::push(self, item)
        }
    }
    impl<T> Container<T> for () {
        fn push(&mut self, _: T) {}
    }
    impl<T> Container<T> for usize {
        fn push(&mut self, _: T) {
            *self += 1
        }
    }
    impl Container<String> for String {
        fn push(&mut self, item: String) {
            self.push_str(&item)
        }
    }
}

macro_rules! copyable {
    ($n:ident<$($g:ident),*> by $($c:ident),* { $($f:ident: $t:ty),* } $($ph:ty)?) => {
        pub struct $n<$($g),*> { $(pub(crate) $f: $t,)* $(pub(crate) phantom: PhantomData<fn() -> $ph>)? }
        impl<$($g),*> Clone for $n<$($g),*> where $($c: Clone),* {
            fn clone(&self) -> Self { $n { $($f: self.$f.clone(),)* $(phantom: PhantomData::<fn() -> $ph>)? } }
        }
        impl<$($g),*> Copy for $n<$($g),*> where $($c: Copy),* {}
    };
}
copyable!(Map<A, OA, F> by A, F { parser: A, f: F } OA);
copyable!(MapWithSpan<A, OA, F> by A, F { parser: A, f: F } OA);
copyable!(Then<A, B, OA, OB, E> by A, B { a: A, b: B } (OA, OB, E));
copyable!(IgnoreThen<A, B, OA, E> by A, B { a: A, b: B } (OA, E));
copyable!(ThenIgnore<A, B, OB, E> by A, B { a: A, b: B } (OB, E));
copyable!(Or<A, B> by A, B { a: A, b: B });
copyable!(OrNot<A> by A { parser: A });
copyable!(Ignored<A, OA> by A { parser: A } OA);
copyable!(To<A, OA, U> by A, U { parser: A, to: U } OA);
copyable!(Filter<A, F> by A, F { parser: A, f: F });
copyable!(Repeated<A, OA, I, E> by A { parser: A, at_least: usize, at_most: usize } (OA, I, E));
copyable!(Collect<A, OA, C> by A { parser: A } (OA, C));
copyable!(WithCtx<A, Ctx> by A, Ctx { parser: A, ctx: Ctx });

impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA, F: Fn(OA) -> O> Parser<'a, I, O, E> for Map<A, OA, F> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let v = self.parser.go(inp)?;
        Ok((self.f)(v))
    }
}
impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA, F: Fn(OA, I::Span) -> O> Parser<'a, I, O, E> for MapWithSpan<A, OA, F> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let before = inp.offset();
        let v = self.parser.go(inp)?;
        let span = inp.span_since(before);
        Ok((self.f)(v, span))
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>, OA, OB> Parser<'a, I, (OA, OB), E> for Then<A, B, OA, OB, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(OA, OB), E::Error> {
        let a = self.a.go(inp)?;
        let b = self.b.go(inp)?;
        Ok((a, b))
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>, OA, OB> Parser<'a, I, OB, E> for IgnoreThen<A, B, OA, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OB, E::Error> {
        self.a.go(inp)?;
        self.b.go(inp)
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>, OA, OB> Parser<'a, I, OA, E> for ThenIgnore<A, B, OB, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OA, E::Error> {
        let a = self.a.go(inp)?;
        self.b.go(inp)?;
        Ok(a)
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, O, E>, O> Parser<'a, I, O, E> for Or<A, B> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let before = inp.save();
        match self.a.go(inp) {
            Ok(v) => Ok(v),
            Err(_) => {
                inp.rewind(before);
                self.b.go(inp)
            }
        }
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, O> Parser<'a, I, Option<O>, E> for OrNot<A> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Option<O>, E::Error> {
        let before = inp.save();
        match self.parser.go(inp) {
            Ok(v) => Ok(Some(v)),
            Err(_) => {
                inp.rewind(before);
                Ok(None)
            }
        }
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA> Parser<'a, I, (), E> for Ignored<A, OA> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.parser.go(inp).map(|_| ())
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA, U: Clone> Parser<'a, I, U, E> for To<A, OA, U> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, E::Error> {
        self.parser.go(inp)?;
        Ok(self.to.clone())
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, O, F: Fn(&O) -> bool> Parser<'a, I, O, E> for Filter<A, F> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let start = inp.at;
        let v = self.parser.go(inp)?;
        if (self.f)(&v) {
            Ok(v)
        } else {
            inp.fail(start)
        }
    }
}
impl<A, OA, I, E> Repeated<A, OA, I, E> {
    pub fn at_least(self, at_least: usize) -> Self {
        Repeated { at_least, ..self }
    }
    pub fn at_most(self, at_most: usize) -> Self {
        Repeated { at_most, ..self }
    }
    pub fn exactly(self, n: usize) -> Self {
        Repeated { at_least: n, at_most: n, ..self }
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA> IterParser<'a, I, OA, E> for Repeated<A, OA, I, E> {
    fn items(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Vec<OA>, E::Error> {
        let mut out = Vec::new();
        while out.len() < self.at_most {
            let before = inp.save();
            match self.parser.go(inp) {
                Ok(v) => out.push(v),
                Err(e) => {
                    if out.len() < self.at_least {
                        return Err(e);
                    }
                    inp.rewind(before);
                    break;
                }
            }
        }
        Ok(out)
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA> Parser<'a, I, (), E> for Repeated<A, OA, I, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.items(inp).map(|_| ())
    }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: IterParser<'a, I, OA, E>, OA, C: container::Container<OA>> Parser<'a, I, C, E> for Collect<A, OA, C> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<C, E::Error> {
        let mut c = C::default();
        for v in self.parser.items(inp)? {
            c.push(v);
        }
        Ok(c)
    }
}
impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A, Ctx: 'a + Clone> Parser<'a, I, O, E> for WithCtx<A, Ctx>
where
    A: Parser<'a, I, O, extra::Full<E::Error, E::State, Ctx>>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        inp.with_extra::<extra::Full<E::Error, E::State, Ctx>, _>(|i| self.parser.go(i))
    }
}

pub struct Boxed<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I> = extra::Default> {
    inner: Rc<dyn Parser<'a, I, O, E> + 'b>,
}
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Clone for Boxed<'a, 'b, I, O, E> {
    fn clone(&self) -> Self {
        Boxed { inner: self.inner.clone() }
    }
}
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Parser<'a, I, O, E> for Boxed<'a, 'b, I, O, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        self.inner.go(inp)
    }
}

pub mod primitive {
    use super::*;
    pub struct End<I, E>(PhantomData<fn() -> (I, E)>);
    impl<I, E> Clone for End<I, E> {
        fn clone(&self) -> Self {
            End(PhantomData)
        }
    }
    impl<I, E> Copy for End<I, E> {}
    pub fn end<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> End<I, E> {
        End(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for End<I, E> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
            if inp.peek_maybe().is_none() {
                Ok(())
            } else {
                let at = inp.at;
                inp.fail(at)
            }
        }
    }
    pub trait OrderedSeq<T> {
        #[doc(hidden)]
        fn matches(&self, get: &mut dyn FnMut() -> Option<T>) -> bool
        where
            T: PartialEq;
    }
    impl<T: Clone> OrderedSeq<T> for T {
        fn matches(&self, get: &mut dyn FnMut() -> Option<T>) -> bool
        where
            T: PartialEq,
        {
            get().as_ref() == Some(self)
        }
    }
    impl<T: Clone> OrderedSeq<T> for Vec<T> {
        fn matches(&self, get: &mut dyn FnMut() -> Option<T>) -> bool
        where
            T: PartialEq,
        {
            for x in self {
                if get().as_ref() != Some(x) {
                    return false;
                }
            }
            true
        }
    }
    pub struct Just<T, I, E> {
        seq: T,
        phantom: PhantomData<fn() -> (I, E)>,
    }
    impl<T: Clone, I, E> Clone for Just<T, I, E> {
        fn clone(&self) -> Self {
            Just { seq: self.seq.clone(), phantom: PhantomData }
        }
    }
    impl<T: Copy, I, E> Copy for Just<T, I, E> {}
    pub fn just<'a, T, I, E>(seq: T) -> Just<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: OrderedSeq<I::Token> + Clone,
    {
        Just { seq, phantom: PhantomData }
    }
    impl<'a, I, E, T> Parser<'a, I, T, E> for Just<T, I, E>
    where
        I: ValueInput<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq + Clone,
        T: OrderedSeq<I::Token> + Clone,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<T, E::Error> {
            let start = inp.at;
            let ok = self.seq.matches(&mut || {
                let t = inp.input.value_at(inp.at);
                if t.is_some() {
                    inp.at += 1;
                }
                t
            });
            if ok {
                Ok(self.seq.clone())
            } else {
                inp.fail(start)
            }
        }
    }
    pub struct Select<F, I, O, E> {
        filter: F,
        phantom: PhantomData<fn() -> (I, O, E)>,
    }
    impl<F: Clone, I, O, E> Clone for Select<F, I, O, E> {
        fn clone(&self) -> Self {
            Select { filter: self.filter.clone(), phantom: PhantomData }
        }
    }
    impl<F: Copy, I, O, E> Copy for Select<F, I, O, E> {}
    pub fn select<'a, F, I, O, E>(filter: F) -> Select<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        Select { filter, phantom: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for Select<F, I, O, E>
    where
        I: ValueInput<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            let start = inp.at;
            if let Some(t) = inp.input.value_at(inp.at) {
                inp.at += 1;
                if let Some(o) = (self.filter)(t, inp.input.make_span(start, inp.at)) {
                    return Ok(o);
                }
            }
            inp.fail(start)
        }
    }
    pub struct SelectRef<F, I, O, E> {
        filter: F,
        phantom: PhantomData<fn() -> (I, O, E)>,
    }
    impl<F: Clone, I, O, E> Clone for SelectRef<F, I, O, E> {
        fn clone(&self) -> Self {
            SelectRef { filter: self.filter.clone(), phantom: PhantomData }
        }
    }
    impl<F: Copy, I, O, E> Copy for SelectRef<F, I, O, E> {}
    pub fn select_ref<'a, F, I, O, E>(filter: F) -> SelectRef<F, I, O, E>
    where
        I: BorrowInput<'a>,
        I::Token: 'a,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        SelectRef { filter, phantom: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for SelectRef<F, I, O, E>
    where
        I: BorrowInput<'a>,
        I::Token: 'a,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            let start = inp.at;
            if let Some(t) = inp.input.borrow_at(inp.at) {
                inp.at += 1;
                if let Some(o) = (self.filter)(t, inp.input.make_span(start, inp.at)) {
                    return Ok(o);
                }
            }
            inp.fail(start)
        }
    }
    #[derive(Clone, Copy)]
    pub struct Choice<T> {
        parsers: T,
    }
    pub fn choice<T>(parsers: T) -> Choice<T> {
        Choice { parsers }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, O, E> for Choice<Vec<A>> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            let before = inp.save();
            for p in self.parsers.iter() {
                inp.rewind(before);
                if let Ok(v) = p.go(inp) {
                    return Ok(v);
                }
            }
            inp.rewind(before);
            let at = inp.at;
            inp.fail(at)
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, O, E>> Parser<'a, I, O, E> for Choice<(A, B)> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            let before = inp.save();
            if let Ok(v) = self.parsers.0.go(inp) {
                return Ok(v);
            }
            inp.rewind(before);
            self.parsers.1.go(inp)
        }
    }
}

pub mod extension {
    pub mod v1 {
        use crate::*;
        pub trait ExtParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
            fn parse(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>;
            fn check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
                self.parse(inp).map(|_| ())
            }
        }
        #[derive(Copy, Clone)]
        pub struct Ext<T: ?Sized>(pub T);
        impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: ExtParser<'a, I, O, E>> Parser<'a, I, O, E> for Ext<P> {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
                self.0.parse(inp)
            }
        }
    }
}

pub mod cache {
    pub trait Cached {
        type Parser<'src>;
        fn make_parser<'src>(self) -> Self::Parser<'src>;
    }
    pub struct Cache<C: Cached> {
        parser: C::Parser<'static>,
    }
    impl<C: Cached> Cache<C> {
        pub fn new(cacher: C) -> Self {
            Cache { parser: cacher.make_parser() }
        }
        pub fn get<'src>(&self) -> &C::Parser<'src> {
            unsafe { &*(&self.parser as *const C::Parser<'static>).cast() }
        }
    }
}

pub mod prelude {
    pub use crate::error::{EmptyErr, Error as _};
    pub use crate::input::Input;
    pub use crate::primitive::{choice, end, just, select, select_ref};
    pub use crate::span::{SimpleSpan, Span as _};
    pub use crate::{extra, select, select_ref, Boxed, IterParser, ParseResult, Parser};
}

#[macro_export]
macro_rules! select {
    ($($p:pat $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => ({
        $crate::primitive::select(
            move |x, _span| match x {
                $($p $(if $guard)? => ::core::option::Option::Some({ () ;$($out)? })),+,
                _ => ::core::option::Option::None,
            }
        )
    });
}
#[macro_export]
macro_rules! select_ref {
    ($($p:pat $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => ({
        $crate::primitive::select_ref(
            move |x, _span| match x {
                $($p $(if $guard)? => ::core::option::Option::Some({ () ;$($out)? })),+,
                _ => ::core::option::Option::None,
            }
        )
    });
}
