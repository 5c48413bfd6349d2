//! Runs derived parsers and compares them with the reference machine.
use pest3::{
    choice::*,
    error::{Error, ErrorVariant, InputLocation, LineColLocation},
    sequence::*,
    token::Pair,
    typed::{template::*, wrapper::String as Wrap, PairTree, RuleType, Tracker, TypedNode, TypedParser},
    Position, Span, Stack,
};
use vref::interp::V;
pub use fams::src::A as Ac;
pub use vref;
mod cmp;
pub use cmp::main;

/// The canonical value of a node of a typed tree.
pub trait Node {
    fn v(&self) -> V;
}
fn span(s: &Span<'_>) -> V {
    V::P(s.start(), s.end())
}
impl<T: Node> Node for Box<T> {
    fn v(&self) -> V { (**self).v() }
}
impl<T: Wrap> Node for Str<T> {
    fn v(&self) -> V { V::U }
}
impl<'i, T: Wrap> Node for Insens<'i, T> {
    fn v(&self) -> V { V::T(self.content.into()) }
}
impl<const A: char, const B: char> Node for CharRange<A, B> {
    fn v(&self) -> V { V::C(self.content) }
}
impl Node for any {
    fn v(&self) -> V { V::C(self.content) }
}
macro_rules! unit {
    ($($t:ty),*) => {$(impl Node for $t { fn v(&self) -> V { V::U } })*};
}
unit!(soi, eoi, Empty, NONE, drop);
impl<const A: isize, const B: isize> Node for PeekSlice2<A, B> {
    fn v(&self) -> V { V::U }
}
impl<const A: isize> Node for PeekSlice1<A> {
    fn v(&self) -> V { V::U }
}
macro_rules! class {
    ($($t:ident)*) => {$(impl Node for pest3::typed::unicode::$t { fn v(&self) -> V { V::C(self.content) } })*};
}
class!(ALPHABETIC UPPERCASE DECIMAL_NUMBER);
impl Node for newline {
    fn v(&self) -> V { V::T(format!("{:?}", self.content)) }
}
impl<'i> Node for peek<'i> {
    fn v(&self) -> V { span(&self.span) }
}
impl<'i> Node for peek_all<'i> {
    fn v(&self) -> V { span(&self.span) }
}
impl<'i> Node for pop_all<'i> {
    fn v(&self) -> V { span(&self.span) }
}
impl<'i> Node for pop<'i> {
    fn v(&self) -> V { span(&self.span) }
}
impl<T: Node> Node for push<T> {
    fn v(&self) -> V {
        if !std::ptr::eq(&**self, &self.content) {
            return V::T("push does not stand for its content".into());
        }
        V::Push(Box::new(self.content.v()))
    }
}
impl<T: Node> Node for Option<T> {
    fn v(&self) -> V { self.as_ref().map_or(V::N, |x| V::S(Box::new(x.v()))) }
}
impl<T: Node> Node for Positive<T> {
    fn v(&self) -> V {
        if !std::ptr::eq(&**self, &self.content) {
            return V::T("a predicate does not stand for its content".into());
        }
        V::Pos(Box::new(self.content.v()))
    }
}
impl<T> Node for Negative<T> {
    fn v(&self) -> V { V::Neg }
}
impl<T: Node, U, const A: usize, const B: usize> Node for RepMinMax<T, U, A, B> {
    fn v(&self) -> V {
        let (a, b): (Vec<V>, Vec<V>) = (self.content.iter().map(|x| x.v()).collect(), self.iter().map(|x| x.v()).collect());
        if a != b {
            return V::T(format!("iter() gives {b:?} of {a:?}"));
        }
        V::Rep(a)
    }
}

#[macro_export]
macro_rules! wide_seq {
    ($n:path; $($f:ident $t:ident $u:ident),*) => {
        impl<$($t: $crate::Node, $u),*> $crate::Node for $n {
            fn v(&self) -> $crate::vref::interp::V {
                $crate::vref::interp::V::L(vec![$(self.$f.v()),*])
            }
        }
    };
}
#[macro_export]
macro_rules! wide_cho {
    ($n:path; $($k:literal $($var:ident)::+, $t:ident $(@ $get:ident)?),*) => {
        impl<$($t: $crate::Node),*> $crate::Node for $n {
            fn v(&self) -> $crate::vref::interp::V {
                // The getter of a variant gives something exactly for that variant.
                let is = match self { $($($var)::+(_) => $k,)* };
                $($(
                    if self.$get().is_some() != (is == $k) {
                        return $crate::vref::interp::V::Alt(u8::MAX, Box::new($crate::vref::interp::V::N));
                    }
                )?)*
                match self { $($($var)::+(x) => $crate::vref::interp::V::Alt($k, Box::new(x.v())),)* }
            }
        }
    };
}
wide_seq!(Sequence2<T0, U0, T1, U1>; field_0 T0 U0, field_1 T1 U1);
wide_cho!(Choice2<T0, T1>; 0 Choice2::Choice0, T0, 1 Choice2::Choice1, T1);
wide_seq!(Sequence3<T0, U0, T1, U1, T2, U2>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2);
wide_cho!(Choice3<T0, T1, T2>; 0 Choice3::Choice0, T0, 1 Choice3::Choice1, T1, 2 Choice3::Choice2, T2);
wide_seq!(Sequence4<T0, U0, T1, U1, T2, U2, T3, U3>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3);
wide_cho!(Choice4<T0, T1, T2, T3>; 0 Choice4::Choice0, T0, 1 Choice4::Choice1, T1, 2 Choice4::Choice2, T2, 3 Choice4::Choice3, T3);
wide_seq!(Sequence5<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4);
wide_cho!(Choice5<T0, T1, T2, T3, T4>; 0 Choice5::Choice0, T0, 1 Choice5::Choice1, T1, 2 Choice5::Choice2, T2, 3 Choice5::Choice3, T3, 4 Choice5::Choice4, T4);
wide_seq!(Sequence6<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5);
wide_cho!(Choice6<T0, T1, T2, T3, T4, T5>; 0 Choice6::Choice0, T0, 1 Choice6::Choice1, T1, 2 Choice6::Choice2, T2, 3 Choice6::Choice3, T3, 4 Choice6::Choice4, T4, 5 Choice6::Choice5, T5);
wide_seq!(Sequence7<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6);
wide_cho!(Choice7<T0, T1, T2, T3, T4, T5, T6>; 0 Choice7::Choice0, T0, 1 Choice7::Choice1, T1, 2 Choice7::Choice2, T2, 3 Choice7::Choice3, T3, 4 Choice7::Choice4, T4, 5 Choice7::Choice5, T5, 6 Choice7::Choice6, T6);
wide_seq!(Sequence8<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6, T7, U7>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6, field_7 T7 U7);
wide_cho!(Choice8<T0, T1, T2, T3, T4, T5, T6, T7>; 0 Choice8::Choice0, T0, 1 Choice8::Choice1, T1, 2 Choice8::Choice2, T2, 3 Choice8::Choice3, T3, 4 Choice8::Choice4, T4, 5 Choice8::Choice5, T5, 6 Choice8::Choice6, T6, 7 Choice8::Choice7, T7);
wide_seq!(Sequence9<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6, T7, U7, T8, U8>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6, field_7 T7 U7, field_8 T8 U8);
wide_cho!(Choice9<T0, T1, T2, T3, T4, T5, T6, T7, T8>; 0 Choice9::Choice0, T0, 1 Choice9::Choice1, T1, 2 Choice9::Choice2, T2, 3 Choice9::Choice3, T3, 4 Choice9::Choice4, T4, 5 Choice9::Choice5, T5, 6 Choice9::Choice6, T6, 7 Choice9::Choice7, T7, 8 Choice9::Choice8, T8);
wide_seq!(Sequence10<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6, T7, U7, T8, U8, T9, U9>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6, field_7 T7 U7, field_8 T8 U8, field_9 T9 U9);
wide_cho!(Choice10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>; 0 Choice10::Choice0, T0, 1 Choice10::Choice1, T1, 2 Choice10::Choice2, T2, 3 Choice10::Choice3, T3, 4 Choice10::Choice4, T4, 5 Choice10::Choice5, T5, 6 Choice10::Choice6, T6, 7 Choice10::Choice7, T7, 8 Choice10::Choice8, T8, 9 Choice10::Choice9, T9);
wide_seq!(Sequence11<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6, T7, U7, T8, U8, T9, U9, T10, U10>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6, field_7 T7 U7, field_8 T8 U8, field_9 T9 U9, field_10 T10 U10);
wide_cho!(Choice11<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>; 0 Choice11::Choice0, T0, 1 Choice11::Choice1, T1, 2 Choice11::Choice2, T2, 3 Choice11::Choice3, T3, 4 Choice11::Choice4, T4, 5 Choice11::Choice5, T5, 6 Choice11::Choice6, T6, 7 Choice11::Choice7, T7, 8 Choice11::Choice8, T8, 9 Choice11::Choice9, T9, 10 Choice11::Choice10, T10);
wide_seq!(Sequence12<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6, T7, U7, T8, U8, T9, U9, T10, U10, T11, U11>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6, field_7 T7 U7, field_8 T8 U8, field_9 T9 U9, field_10 T10 U10, field_11 T11 U11);
wide_cho!(Choice12<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>; 0 Choice12::Choice0, T0, 1 Choice12::Choice1, T1, 2 Choice12::Choice2, T2, 3 Choice12::Choice3, T3, 4 Choice12::Choice4, T4, 5 Choice12::Choice5, T5, 6 Choice12::Choice6, T6, 7 Choice12::Choice7, T7, 8 Choice12::Choice8, T8, 9 Choice12::Choice9, T9, 10 Choice12::Choice10, T10, 11 Choice12::Choice11, T11);
wide_seq!(Sequence13<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6, T7, U7, T8, U8, T9, U9, T10, U10, T11, U11, T12, U12>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6, field_7 T7 U7, field_8 T8 U8, field_9 T9 U9, field_10 T10 U10, field_11 T11 U11, field_12 T12 U12);
wide_cho!(Choice13<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12>; 0 Choice13::Choice0, T0, 1 Choice13::Choice1, T1, 2 Choice13::Choice2, T2, 3 Choice13::Choice3, T3, 4 Choice13::Choice4, T4, 5 Choice13::Choice5, T5, 6 Choice13::Choice6, T6, 7 Choice13::Choice7, T7, 8 Choice13::Choice8, T8, 9 Choice13::Choice9, T9, 10 Choice13::Choice10, T10, 11 Choice13::Choice11, T11, 12 Choice13::Choice12, T12);
wide_seq!(Sequence14<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6, T7, U7, T8, U8, T9, U9, T10, U10, T11, U11, T12, U12, T13, U13>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6, field_7 T7 U7, field_8 T8 U8, field_9 T9 U9, field_10 T10 U10, field_11 T11 U11, field_12 T12 U12, field_13 T13 U13);
wide_cho!(Choice14<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13>; 0 Choice14::Choice0, T0, 1 Choice14::Choice1, T1, 2 Choice14::Choice2, T2, 3 Choice14::Choice3, T3, 4 Choice14::Choice4, T4, 5 Choice14::Choice5, T5, 6 Choice14::Choice6, T6, 7 Choice14::Choice7, T7, 8 Choice14::Choice8, T8, 9 Choice14::Choice9, T9, 10 Choice14::Choice10, T10, 11 Choice14::Choice11, T11, 12 Choice14::Choice12, T12, 13 Choice14::Choice13, T13);
wide_seq!(Sequence15<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6, T7, U7, T8, U8, T9, U9, T10, U10, T11, U11, T12, U12, T13, U13, T14, U14>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6, field_7 T7 U7, field_8 T8 U8, field_9 T9 U9, field_10 T10 U10, field_11 T11 U11, field_12 T12 U12, field_13 T13 U13, field_14 T14 U14);
wide_cho!(Choice15<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14>; 0 Choice15::Choice0, T0, 1 Choice15::Choice1, T1, 2 Choice15::Choice2, T2, 3 Choice15::Choice3, T3, 4 Choice15::Choice4, T4, 5 Choice15::Choice5, T5, 6 Choice15::Choice6, T6, 7 Choice15::Choice7, T7, 8 Choice15::Choice8, T8, 9 Choice15::Choice9, T9, 10 Choice15::Choice10, T10, 11 Choice15::Choice11, T11, 12 Choice15::Choice12, T12, 13 Choice15::Choice13, T13, 14 Choice15::Choice14, T14);
wide_seq!(Sequence16<T0, U0, T1, U1, T2, U2, T3, U3, T4, U4, T5, U5, T6, U6, T7, U7, T8, U8, T9, U9, T10, U10, T11, U11, T12, U12, T13, U13, T14, U14, T15, U15>; field_0 T0 U0, field_1 T1 U1, field_2 T2 U2, field_3 T3 U3, field_4 T4 U4, field_5 T5 U5, field_6 T6 U6, field_7 T7 U7, field_8 T8 U8, field_9 T9 U9, field_10 T10 U10, field_11 T11 U11, field_12 T12 U12, field_13 T13 U13, field_14 T14 U14, field_15 T15 U15);
wide_cho!(Choice16<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15>; 0 Choice16::Choice0, T0, 1 Choice16::Choice1, T1, 2 Choice16::Choice2, T2, 3 Choice16::Choice3, T3, 4 Choice16::Choice4, T4, 5 Choice16::Choice5, T5, 6 Choice16::Choice6, T6, 7 Choice16::Choice7, T7, 8 Choice16::Choice8, T8, 9 Choice16::Choice9, T9, 10 Choice16::Choice10, T10, 11 Choice16::Choice11, T11, 12 Choice16::Choice12, T12, 13 Choice16::Choice13, T13, 14 Choice16::Choice14, T14, 15 Choice16::Choice15, T15);

/// A rule of a derived grammar.
#[macro_export]
macro_rules! node {
    ($id:literal, $($p:ident)::+) => {
        impl<'i> $crate::Node for $($p)::+<'i> {
            fn v(&self) -> $crate::vref::interp::V {
                $crate::rule($id, &self.span, $crate::Node::v(&self.content))
            }
        }
    };
    ($id:literal, $($p:ident)::+, $($t:ident),+) => {
        impl<'i, $($t: $crate::Node),+> $crate::Node for $($p)::+<'i, $($t),+> {
            fn v(&self) -> $crate::vref::interp::V {
                $crate::rule($id, &self.span, $crate::Node::v(&self.content))
            }
        }
    };
}
/// A rule that is nothing but a class of characters.
#[macro_export]
macro_rules! node_c {
    ($id:literal, $($p:ident)::+) => {
        impl<'i> $crate::Node for $($p)::+<'i> {
            fn v(&self) -> $crate::vref::interp::V {
                $crate::rule($id, &self.span, $crate::vref::interp::V::C(self.content.content))
            }
        }
    };
}
pub fn rule(id: usize, s: &Span<'_>, v: V) -> V {
    V::R(id, s.start(), s.end(), Box::new(v))
}

/// What an accessor that does not exist returns.
pub struct Absent;
pub trait Shape {
    fn sh(&self) -> Ac;
}
impl Shape for Absent {
    fn sh(&self) -> Ac { Ac::Absent }
}
impl<T: Node> Shape for &T {
    fn sh(&self) -> Ac { Ac::Node((*self).v()) }
}
impl<T: Shape> Shape for Option<T> {
    fn sh(&self) -> Ac { Ac::Opt(self.as_ref().map(|x| Box::new(x.sh()))) }
}
impl<T: Shape> Shape for Vec<T> {
    fn sh(&self) -> Ac { Ac::Vec(self.iter().map(|x| x.sh()).collect()) }
}
macro_rules! tuples {
    ($($($t:ident $k:tt),*;)*) => {$(
        impl<$($t: Shape),*> Shape for ($($t,)*) {
            fn sh(&self) -> Ac { Ac::Tuple(vec![$(self.$k.sh()),*]) }
        }
    )*};
}
tuples! {
    A0 0, A1 1;
    A0 0, A1 1, A2 2;
    A0 0, A1 1, A2 2, A3 3;
    A0 0, A1 1, A2 2, A3 3, A4 4;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7;
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Er {
    pub pos: usize,
    pub lc: (usize, usize),
    pub msg: String,
}
fn er<R: RuleType>(e: Box<Error<R>>) -> Er {
    Er {
        pos: match e.location {
            InputLocation::Pos(p) => p,
            InputLocation::Span(_) => usize::MAX,
        },
        lc: match e.line_col {
            LineColLocation::Pos(p) => p,
            LineColLocation::Span(..) => (0, 0),
        },
        msg: match &e.variant {
            ErrorVariant::CustomError { message } => message.clone(),
            v => format!("{v:?}"),
        },
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PairS {
    pub rule: String,
    pub s: usize,
    pub e: usize,
    pub ch: Vec<PairS>,
}
fn ps<R: RuleType>(p: &Pair<R>) -> PairS {
    PairS { rule: format!("{:?}", p.rule), s: p.start, e: p.end, ch: p.children.iter().map(ps).collect() }
}

fn named(p: &Pair<String>) -> PairS {
    PairS { rule: p.rule.clone(), s: p.start, e: p.end, ch: p.children.iter().map(named).collect() }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pairs {
    /// The node seen from its parent.
    pub me: Vec<PairS>,
    pub children: Vec<PairS>,
    /// The pair of the node itself and its text, unless it is silent.
    pub tree: Option<(PairS, String)>,
}

/// Everything observed of one derived rule on one input.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obs {
    pub part: Result<(usize, V), Er>,
    pub full: Result<V, Er>,
    pub cpart: Result<usize, Er>,
    pub cfull: Result<(), Er>,
    pub pairs: Option<Pairs>,
    pub acc: Vec<(&'static str, Ac)>,
    /// The rule the type is marked with.
    pub rule: String,
    /// Differences between the entry points of the node and those of the parser type.
    pub entry: Vec<String>,
}
pub type Run = fn(&str) -> Obs;
/// A family of one grammar: its number, its cases, and cases (case, level) run as rules of an imported module.
pub type Cases = (usize, &'static [Run], &'static [(usize, usize, Run)]);

/// Everything a parse with explicit state leaves behind.
fn with<'i, R: RuleType, O>(
    input: &'i str,
    at: usize,
    f: impl FnOnce(Position<'i>, &mut Stack<Span<'i>>, &mut Tracker<'i, R>) -> O,
) -> (O, Vec<(usize, usize)>, Er) {
    let pos = Position::new(input, at).unwrap();
    let mut st = Stack::new();
    let mut tr = Tracker::<R>::new(pos);
    let o = f(pos, &mut st, &mut tr);
    let left = st[0..st.len()].iter().map(|s| (s.start(), s.end())).collect();
    (o, left, er(tr.collect()))
}
/// The positions to start at: all of them, or a few of a long text.
pub fn starts(input: &str) -> Vec<usize> {
    let all: Vec<usize> = (0..=input.len()).filter(|i| input.is_char_boundary(*i)).collect();
    let n = all.len();
    if n <= 100 { all } else { vec![all[0], all[1], all[n / 2], all[n - 2], all[n - 1]] }
}
/// `obs`, and the parser type's own entry points compared with the node's.
pub fn obs_p<'i, P: TypedParser<R>, R: RuleType, T: TypedNode<'i, R> + Node + pest3::typed::wrapper::Rule>(
    input: &'i str,
    pairs: impl Fn(&T) -> Option<Pairs>,
    acc: impl Fn(&T) -> Vec<(&'static str, Ac)>,
) -> Obs {
    let mut o = obs::<R, T>(input, pairs, acc);
    let full = P::try_parse::<T>(input).map(|t| t.v()).map_err(er);
    let part = P::try_parse_partial::<T>(input).map(|(p, t)| (p.pos(), t.v())).map_err(er);
    if full != o.full {
        o.entry.push(format!("the parser's try_parse gives {full:?}, the node's {:?}", o.full));
    }
    if part != o.part {
        o.entry.push(format!("the parser's try_parse_partial gives {part:?}, the node's {:?}", o.part));
    }
    for at in starts(input) {
        let a = with::<R, _>(input, at, |i, s, t| P::try_parse_with::<T>(i, s, t).map(|t| t.v()));
        let b = with::<R, _>(input, at, |i, s, t| T::try_parse_with(i, s, t).map(|t| t.v()));
        let c = with::<R, _>(input, at, |i, s, t| P::try_parse_with_partial::<T>(i, s, t).map(|(p, t)| (p.pos(), t.v())));
        let d = with::<R, _>(input, at, |i, s, t| T::try_parse_with_partial(i, s, t).map(|(p, t)| (p.pos(), t.v())));
        let e = with::<R, _>(input, at, |i, s, t| T::check_with(i, s, t));
        let f = with::<R, _>(input, at, |i, s, t| T::check_with_partial(i, s, t).map(|p| p.pos()));
        if a != b {
            o.entry.push(format!("from {at}: the parser's try_parse_with gives {a:?}, the node's {b:?}"));
        }
        if c != d {
            o.entry.push(format!("from {at}: the parser's try_parse_with_partial gives {c:?}, the node's {d:?}"));
        }
        if e.0 != b.0.is_some() || (&e.1, &e.2) != (&b.1, &b.2) {
            o.entry.push(format!("from {at}: check_with gives {e:?}, try_parse_with {b:?}"));
        }
        if f.0 != d.0.as_ref().map(|x| x.0) || (&f.1, &f.2) != (&d.1, &d.2) {
            o.entry.push(format!("from {at}: check_with_partial gives {f:?}, try_parse_with_partial {d:?}"));
        }
        let end = d.0.as_ref().map(|x| x.0);
        if b.0.is_some() != (end == Some(input.len())) {
            o.entry.push(format!("from {at}: try_parse_with_partial ends at {end:?} of {}, try_parse_with gives {b:?}", input.len()));
        }
    }
    o
}

/// The initial stacks nodes are parsed on to be compared.
pub fn stacks(input: &str) -> Vec<Vec<&str>> {
    let c: Vec<usize> = input.char_indices().map(|x| x.0).chain([input.len()]).collect();
    let w = |a: usize| &input[c[a]..c[a + 1]];
    let mut v = vec![vec![]];
    if c.len() > 1 {
        v.extend([vec![w(0)], vec![w(c.len() - 2), w(0)]]);
    }
    v
}
/// Nothing but nodes as values: all the nodes one rule gives anywhere in the input, on a few stacks,
/// compared with one another and with their clones.
pub fn obs_v<'i, R: RuleType, T: TypedNode<'i, R> + Node + Clone + Eq + std::fmt::Debug + pest3::typed::wrapper::Rule>(
    input: &'i str,
    pairs: impl Fn(&T) -> Option<Pairs>,
    content: impl Fn(&T, &T) -> bool,
) -> Obs {
    let mut o = obs::<R, T>(input, &pairs, |_| vec![]);
    let mut all: Vec<(String, T, V)> = vec![];
    let c: Vec<usize> = input.char_indices().map(|x| x.0).chain([input.len()]).collect();
    for (k, st) in stacks(input).iter().enumerate() {
        for at in &c {
            let pos = Position::new(input, *at).unwrap();
            let mut stack = Stack::new();
            st.iter().for_each(|s| stack.push(Span::new(s, 0, s.len()).unwrap()));
            let mut tr = Tracker::<R>::new(pos);
            if let Some((_, t)) = T::try_parse_with_partial(pos, &mut stack, &mut tr) {
                let v = t.v();
                let mut twin = t.clone();
                if !(twin == t) || !(t == twin) || !content(&t, &twin) || twin.v() != v || pairs(&twin) != pairs(&t) {
                    o.entry.push(format!("from {at} on stack {k}: {t:?} is cloned as {twin:?}"));
                }
                if let Some((_, x, _)) = all.last() {
                    twin.clone_from(x);
                    if twin != *x {
                        o.entry.push(format!("from {at} on stack {k}: {x:?} is cloned into a node as {twin:?}"));
                    }
                }
                all.push((format!("from {at} on stack {k}"), t, v));
            }
        }
    }
    for (i, (fa, a, va)) in all.iter().enumerate() {
        for (fb, b, vb) in &all[i..] {
            let inner = |v: &V| match v {
                V::R(_, _, _, x) => (**x).clone(),
                v => v.clone(),
            };
            let same = va == vb;
            if (a == b) != same || (b == a) != same || (a != b) == same {
                o.entry.push(format!("nodes {fa} and {fb} record {va:?} and {vb:?}, == gives {}", a == b));
            } else if content(a, b) != (inner(va) == inner(vb)) {
                o.entry.push(format!("nodes {fa} and {fb} record {va:?} and {vb:?}, == of the contents gives {}", content(a, b)));
            } else if same && format!("{a:?}") != format!("{b:?}") {
                o.entry.push(format!("equal nodes {fa} and {fb} are printed as {a:?} and {b:?}"));
            } else if same && pairs(a) != pairs(b) {
                o.entry.push(format!("equal nodes {fa} and {fb} give pairs {:?} and {:?}", pairs(a), pairs(b)));
            }
        }
    }
    o
}

pub fn obs<'i, R: RuleType, T: TypedNode<'i, R> + Node + pest3::typed::wrapper::Rule>(
    input: &'i str,
    pairs: impl Fn(&T) -> Option<Pairs>,
    acc: impl Fn(&T) -> Vec<(&'static str, Ac)>,
) -> Obs {
    let mut ps = None;
    let mut ac = vec![];
    let part = match T::try_parse_partial(input) {
        Ok((p, t)) => {
            ps = pairs(&t);
            ac = acc(&t);
            Ok((p.pos(), t.v()))
        }
        Err(e) => Err(er(e)),
    };
    Obs {
        part,
        full: T::try_parse(input).map(|t| t.v()).map_err(er),
        cpart: T::check_partial(input).map(|p| p.pos()).map_err(er),
        cfull: T::check(input).map_err(er),
        pairs: ps,
        acc: ac,
        rule: format!("{:?}", T::RULE),
        entry: vec![],
    }
}
pub fn no_pairs<T>(_: &T) -> Option<Pairs> {
    None
}
fn common<R: RuleType, T: pest3::typed::PairContainer<R>>(t: &T) -> Pairs {
    let mut me = vec![];
    t.for_self_or_for_each_child_pair(&mut |p: Pair<R>| me.push(ps(&p)));
    Pairs { me, children: t.vec_children_pairs().iter().map(ps).collect(), tree: None }
}
pub fn pairs_silent<R: RuleType, T: pest3::typed::PairContainer<R>>(t: &T) -> Option<Pairs> {
    Some(common(t))
}
pub fn pairs<R: RuleType, T: PairTree<R>>(t: &T) -> Option<Pairs> {
    let mut p = common(t);
    let x = t.as_pair_tree();
    p.tree = Some((ps(&x), x.to_string()));
    // Converted pairs have the same shape.
    let y = x.convert(&|r| format!("{r:?}"));
    if named(&y) != ps(&x) {
        p.me.push(named(&y));
    }
    Some(p)
}
