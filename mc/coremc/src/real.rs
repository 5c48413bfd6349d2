//! Runs any abstract expression through the real combinators of pest3_core.
//!
//! Every operator of the expression is executed by the real combinator type; the type parameter
//! for the k-th operand is `Ch<k>`, which looks up the k-th operand of the current expression.
use pest3_core::{
    choice::*,
    sequence::*,
    token::Pair,
    typed::{
        full_rule_struct, template::*, wrapper::{Bound, String as Wrap}, NeverFailedTypedNode, PairContainer, PairTree, RuleType, Tracker, TypedNode
    },
    Position, Span, Stack,
};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use vref::expr::*;
use vref::interp::V;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[allow(non_camel_case_types)]
pub enum Rl {
    r0,
    r1,
    r2,
    r3,
    r4,
    r5,
    r6,
    r7,
    r8,
    r9,
    r10,
    r11,
    r12,
    r13,
    r14,
    r15,
    r16,
    r17,
    r18,
    r19,
    EOI,
}
impl RuleType for Rl {
    const EOI: Self = Self::EOI;
}
pub fn rl_name(i: usize) -> String {
    if i == vref::interp::EOI { "EOI".into() } else { format!("r{i}") }
}
pub fn rl_no(r: Rl) -> usize {
    if r == Rl::EOI { vref::interp::EOI } else { r as usize }
}

thread_local! {
    static CUR: Cell<*const E> = const { Cell::new(std::ptr::null()) };
    static GR: Cell<*const Gram> = const { Cell::new(std::ptr::null()) };
    static PAIRS: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f` with `e` of `g` as the current expression.
pub fn with<T>(g: &Gram, e: &E, pairs: bool, f: impl FnOnce() -> T) -> T {
    GR.with(|c| c.set(g));
    CUR.with(|c| c.set(e));
    PAIRS.with(|c| c.set(pairs));
    let r = f();
    CUR.with(|c| c.set(std::ptr::null()));
    r
}
fn cur() -> &'static E {
    // The pointer outlives `with`.
    unsafe { &*CUR.with(|c| c.get()) }
}
fn gr() -> &'static Gram {
    unsafe { &*GR.with(|c| c.get()) }
}

/// The whole current expression.
pub const ROOT: usize = 1000;

fn child(e: &'static E, k: usize) -> &'static E {
    if k == ROOT {
        return e;
    }
    match e {
        E::Push(x) | E::Opt(x) | E::Rep(x, ..) | E::Pos(x) | E::Neg(x) | E::Inst(_, x) => x,
        E::Seq(v) => &v[k].1,
        E::Cho(v) => &v[k],
        E::R(i) => gr().rules[*i].body.as_ref().unwrap(),
        _ => unreachable!(),
    }
}

/// Operand number K of the current expression.
#[derive(Clone, Debug, Default)]
pub struct Ch<'i, const K: usize> {
    pub v: V,
    pub pairs: Vec<Pair<Rl>>,
    _p: std::marker::PhantomData<&'i ()>,
}
impl<'i, const K: usize> PartialEq for Ch<'i, K> {
    fn eq(&self, other: &Self) -> bool { self.v == other.v }
}
impl<'i, const K: usize> Eq for Ch<'i, K> {}
impl<'i, const K: usize> Hash for Ch<'i, K> {
    fn hash<H: Hasher>(&self, h: &mut H) { self.v.hash(h) }
}
impl<'i, const K: usize> TypedNode<'i, Rl> for Ch<'i, K> {
    fn try_parse_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rl>) -> Option<(Position<'i>, Self)> {
        let (p, v, pairs) = go(child(cur(), K), false, input, stack, tracker)?;
        Some((p, Ch { v, pairs, _p: Default::default() }))
    }
    fn check_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rl>) -> Option<Position<'i>> {
        Some(go(child(cur(), K), true, input, stack, tracker)?.0)
    }
}
impl<'i, const K: usize> PairContainer<Rl> for Ch<'i, K> {
    fn for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rl>)) {
        self.pairs.iter().cloned().for_each(f)
    }
}

/// Trivia before part K of the current sequence, or between the elements of the current repetition.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tw<const K: usize>;
fn triv(k: usize) -> Option<&'static E> {
    let t = match cur() {
        E::Seq(v) => v[k].0,
        E::Rep(_, t, ..) => *t,
        _ => unreachable!(),
    };
    match t {
        Tv::No => None,
        Tv::Opt(m) => gr().triv[m as usize].0.as_ref(),
        Tv::Man(m) => gr().triv[m as usize].1.as_ref(),
    }
}
impl<'i, const K: usize> TypedNode<'i, Rl> for Tw<K> {
    fn try_parse_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rl>) -> Option<(Position<'i>, Self)> {
        match triv(K) {
            None => Empty::try_parse_with_partial(input, stack, tracker).map(|(p, _)| (p, Tw)),
            Some(e) => go(e, false, input, stack, tracker).map(|(p, ..)| (p, Tw)),
        }
    }
    fn check_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rl>) -> Option<Position<'i>> {
        match triv(K) {
            None => Empty::check_with_partial(input, stack, tracker),
            Some(e) => go(e, true, input, stack, tracker).map(|(p, ..)| p),
        }
    }
}

macro_rules! rules {
    ($($n:ident $r:ident $i:literal),*) => {$(
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct $n<'i> {
            content: Ch<'i, 0>,
            span: Span<'i>,
        }
        full_rule_struct!($n, (), Rl, Rl::$r, Ch<'i, 0>, Ch<'i, 0>,);
        impl<'i> PairContainer<Rl> for $n<'i> {
            fn for_self_or_for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rl>)) {
                f(self.as_pair_tree())
            }
            fn for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rl>)) {
                self.content.for_self_or_for_each_child_pair(f)
            }
        }
        impl<'i> PairTree<Rl> for $n<'i> {
            fn get_rule() -> Rl { Rl::$r }
            fn get_span(&self) -> (usize, usize) { (self.span.start(), self.span.end()) }
        }
        impl<'i> Node for $n<'i> {
            fn v(self) -> V { V::R($i, self.span.start(), self.span.end(), Box::new(self.content.v)) }
        }
    )*};
}
rules!(N0 r0 0, N1 r1 1, N2 r2 2, N3 r3 3, N4 r4 4, N5 r5 5, N6 r6 6, N7 r7 7, N8 r8 8, N9 r9 9, N10 r10 10, N11 r11 11, N12 r12 12, N13 r13 13, N14 r14 14, N15 r15 15, N16 r16 16, N17 r17 17, N18 r18 18, N19 r19 19);

/// What the canonical tree of a real node is.
pub trait Node: PairContainer<Rl> + Clone + Debug + Eq + Hash {
    fn v(self) -> V;
}
pub fn span(s: &Span<'_>) -> V {
    V::P(s.start(), s.end())
}
impl<'i, const K: usize> Node for Ch<'i, K> {
    fn v(self) -> V { self.v }
}
impl<T: Val> Node for Str<T> {
    fn v(self) -> V {
        if (self.get_const(), Self::CONTENT) != (T::CONTENT, T::CONTENT) {
            return V::T(format!("a terminal {:?} says it is {:?}", T::CONTENT, self.get_const()));
        }
        V::U
    }
}
impl<'i, T: Val> Node for Insens<'i, T> {
    fn v(self) -> V {
        if (self.get_const(), Self::CONTENT) != (T::CONTENT, T::CONTENT) {
            return V::T(format!("a terminal {:?} says it is {:?}", T::CONTENT, self.get_const()));
        }
        V::T(self.content.into())
    }
}
impl<const A: char, const B: char> Node for CharRange<A, B> {
    fn v(self) -> V { V::C(self.content) }
}
impl Node for any {
    fn v(self) -> V { V::C(self.content) }
}
impl<const A: char> Node for Char<A> {
    fn v(self) -> V { V::U }
}
impl<'i, const N: usize> Node for SkipChar<'i, N> {
    fn v(self) -> V { span(&self.span) }
}
macro_rules! unit {
    ($($t:ty),*) => {$(impl Node for $t { fn v(self) -> V { V::U } })*};
}
unit!(soi, eoi, Empty, NONE, drop);
impl<const A: isize, const B: isize> Node for PeekSlice2<A, B> {
    fn v(self) -> V { V::U }
}
impl<const A: isize> Node for PeekSlice1<A> {
    fn v(self) -> V { V::U }
}
impl Node for newline {
    fn v(self) -> V { V::T(format!("{:?}", self.content)) }
}
impl<'i> Node for peek<'i> {
    fn v(self) -> V { span(&self.span) }
}
impl<'i> Node for peek_all<'i> {
    fn v(self) -> V { span(&self.span) }
}
impl<'i> Node for pop_all<'i> {
    fn v(self) -> V { span(&self.span) }
}
impl<'i> Node for pop<'i> {
    fn v(self) -> V { span(&self.span) }
}
impl<T: Node> Node for push<T> {
    fn v(self) -> V {
        if !std::ptr::eq(&*self, &self.content) {
            return V::T("push does not stand for its content".into());
        }
        V::Push(Box::new(self.content.v()))
    }
}
impl<T: Node> Node for Option<T> {
    fn v(self) -> V { self.map_or(V::N, |x| V::S(Box::new(x.v()))) }
}
impl<T: Node> Node for Positive<T> {
    fn v(self) -> V {
        if !std::ptr::eq(&*self, &self.content) {
            return V::T("a predicate does not stand for its content".into());
        }
        V::Pos(Box::new(self.content.v()))
    }
}
impl<T: Clone + Debug + Eq + Hash> Node for Negative<T> {
    fn v(self) -> V { V::Neg }
}
impl<T: Node, U: Clone + Debug + Eq + Hash, const A: usize, const B: usize> Node for RepMinMax<T, U, A, B> {
    fn v(self) -> V {
        let at: Vec<*const T> = self.content.iter().map(|x| x as *const T).collect();
        let by: Vec<*const T> = self.iter().map(|x| x as *const T).collect();
        if at != by {
            return V::T("iter() does not give the elements".into());
        }
        if (<Self as Bound>::MIN, <Self as Bound>::MAX) != (A, B) {
            return V::T("the bounds of a repetition are wrong".into());
        }
        V::Rep(self.into_iter().map(|x| x.v()).collect())
    }
}

/// A literal of the table.
pub trait Val: Wrap + Clone + Debug + Eq + Hash {}

/// A node that was kept, whatever its type is.
pub struct Kept {
    at: *mut (),
    pub v: V,
    pub hash: u64,
    pub debug: String,
    eq: unsafe fn(*mut (), *mut ()) -> bool,
    del: unsafe fn(*mut ()),
}
impl Kept {
    fn new<T: Node>(t: &T, v: V) -> Self {
        unsafe fn eq<T: Eq>(a: *mut (), b: *mut ()) -> bool {
            *(a as *mut T) == *(b as *mut T)
        }
        unsafe fn del<T>(a: *mut ()) {
            std::mem::drop(Box::from_raw(a as *mut T))
        }
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        Kept { at: Box::into_raw(Box::new(t.clone())) as *mut (), v, hash: h.finish(), debug: format!("{t:?}"), eq: eq::<T>, del: del::<T> }
    }
    /// Both must come from one expression, so that they have one type.
    pub fn same(&self, o: &Kept) -> bool {
        assert!(self.eq as usize == o.eq as usize);
        unsafe { (self.eq)(self.at, o.at) }
    }
}
impl Drop for Kept {
    fn drop(&mut self) {
        unsafe { (self.del)(self.at) }
    }
}
thread_local! {
    static KEEP: RefCell<Option<Vec<Kept>>> = const { RefCell::new(None) };
    static NEXT: Cell<bool> = const { Cell::new(false) };
}
/// Runs `f`; the root node of the parse in it is kept, followed by its clone and the clone's clone.
pub fn keeping(f: impl FnOnce()) -> Vec<Kept> {
    KEEP.with(|k| *k.borrow_mut() = Some(vec![]));
    NEXT.with(|n| n.set(true));
    f();
    NEXT.with(|n| n.set(false));
    KEEP.with(|k| k.borrow_mut().take().unwrap())
}

/// A converted pair has the same shape.
fn same_pair(a: &Pair<Rl>, b: &Pair<usize>) {
    let same = (rl_no(a.rule), a.start, a.end, a.children.len()) == (b.rule, b.start, b.end, b.children.len());
    assert!(same, "a pair {a:?} is converted to {b:?}");
    a.children.iter().zip(&b.children).for_each(|(a, b)| same_pair(a, b));
}

pub type Res<'i> = Option<(Position<'i>, V, Vec<Pair<Rl>>)>;

fn run<'i, T: TypedNode<'i, Rl> + Node>(check: bool, input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rl>) -> Res<'i> {
    if check {
        T::check_with_partial(input, stack, tracker).map(|p| (p, V::U, vec![]))
    } else {
        let keep = NEXT.with(|n| n.replace(false));
        let (p, t) = T::try_parse_with_partial(input, stack, tracker)?;
        if keep {
            let c = t.clone();
            let mut h = [DefaultHasher::new(), DefaultHasher::new()];
            t.hash(&mut h[0]);
            c.hash(&mut h[1]);
            assert!(t == c && c == t && t == t, "a clone {c:?} is not equal to its original {t:?}");
            assert!(h[0].finish() == h[1].finish(), "a clone {c:?} is hashed unlike its original {t:?}");
            let (kc, kt) = (Kept::new(&c, c.clone().v()), Kept::new(&t, t.clone().v()));
            KEEP.with(|k| k.borrow_mut().as_mut().unwrap().extend([kt, kc]));
        }
        let mut pairs = vec![];
        if PAIRS.with(|c| c.get()) {
            t.for_self_or_for_each_child_pair(&mut |x| pairs.push(x));
            for p in &pairs {
                same_pair(p, &p.convert(&rl_no));
            }
        }
        Some((p, t.v(), pairs))
    }
}

macro_rules! seqs {
    ($($n:ident $len:literal [$($k:tt $f:ident $t:ident $u:ident),*]),*) => {$(
        impl<$($t: Node, $u: Clone + Debug + Eq + Hash),*> Node for $n<$($t, $u),*> {
            fn v(self) -> V {
                let t = self.as_tuple();
                $(if !std::ptr::eq(t.$k, &self.$f) { return V::T(format!("as_tuple().{} is not {}", $k, stringify!($f))); })*
                let t = self.into_tuple();
                V::L(vec![$(t.$k.v()),*])
            }
        }
    )*};
}
macro_rules! chos {
    ($($n:ident [$($k:literal $var:ident $t:ident $g:ident),*]),*) => {$(
        impl<$($t: Node),*> Node for $n<$($t),*> {
            fn v(self) -> V {
                // The getters must agree with the variant.
                let got: Vec<u8> = vec![$( (self.$g().is_some(), $k) ),*].into_iter().filter(|x| x.0).map(|x| x.1).collect();
                match self {
                    $($n::$var(x) => {
                        if got != [$k] { return V::T(format!("variant {} but getters {:?}", $k, got)); }
                        V::Alt($k, Box::new(x.v()))
                    })*
                }
            }
        }
    )*};
}
include!("wide.rs");

pub const LITS: &[&str] = &[
    "", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "ab", "ba", "aa", "bb", "é", "aé", "éa", " ", "-",
    "A", "B", "aB", "É", "K", "S", "\r", "\n", "\r\n", "abc", "aba", "日", "😀",
];
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct L<const I: usize>;
impl<const I: usize> Val for L<I> {}
impl<const I: usize> Wrap for L<I> {
    const CONTENT: &'static str = LITS[I];
}
macro_rules! by_index {
    ($idx:expr, $check:expr, $i:expr, $s:expr, $t:expr, $kind:ident: $($k:literal)*) => {
        match $idx { $($k => by_index!(@ $kind $k, $check, $i, $s, $t),)* _ => panic!("literal table") }
    };
    (@ Str $k:literal, $check:expr, $i:expr, $s:expr, $t:expr) => { run::<Str<L<$k>>>($check, $i, $s, $t) };
    (@ Ins $k:literal, $check:expr, $i:expr, $s:expr, $t:expr) => { run::<Insens<'_, L<$k>>>($check, $i, $s, $t) };
}
fn lit(s: &str) -> usize {
    LITS.iter().position(|x| *x == s).unwrap_or_else(|| panic!("literal {s:?} not in the table"))
}
macro_rules! ranges {
    ($a:expr, $b:expr, $check:expr, $i:expr, $s:expr, $t:expr; $($x:literal $y:literal),*) => {
        match ($a, $b) { $(($x, $y) => run::<CharRange<$x, $y>>($check, $i, $s, $t),)* r => panic!("range {r:?}") }
    };
}
macro_rules! slices {
    ($a:expr, $b:expr, $check:expr, $i:expr, $s:expr, $t:expr; $($x:literal)*) => {
        match $a { $($x => match $b {
            None => run::<PeekSlice1<$x>>($check, $i, $s, $t),
            Some(-13) => run::<PeekSlice2<$x, -13>>($check, $i, $s, $t),
            Some(-12) => run::<PeekSlice2<$x, -12>>($check, $i, $s, $t),
            Some(-9) => run::<PeekSlice2<$x, -9>>($check, $i, $s, $t),
            Some(-5) => run::<PeekSlice2<$x, -5>>($check, $i, $s, $t),
            Some(-3) => run::<PeekSlice2<$x, -3>>($check, $i, $s, $t),
            Some(-2) => run::<PeekSlice2<$x, -2>>($check, $i, $s, $t),
            Some(-1) => run::<PeekSlice2<$x, -1>>($check, $i, $s, $t),
            Some(0) => run::<PeekSlice2<$x, 0>>($check, $i, $s, $t),
            Some(1) => run::<PeekSlice2<$x, 1>>($check, $i, $s, $t),
            Some(2) => run::<PeekSlice2<$x, 2>>($check, $i, $s, $t),
            Some(3) => run::<PeekSlice2<$x, 3>>($check, $i, $s, $t),
            Some(4) => run::<PeekSlice2<$x, 4>>($check, $i, $s, $t),
            Some(5) => run::<PeekSlice2<$x, 5>>($check, $i, $s, $t),
            Some(9) => run::<PeekSlice2<$x, 9>>($check, $i, $s, $t),
            Some(12) => run::<PeekSlice2<$x, 12>>($check, $i, $s, $t),
            Some(13) => run::<PeekSlice2<$x, 13>>($check, $i, $s, $t),
            b => panic!("slice {b:?}"),
        },)* a => panic!("slice {a:?}") }
    };
}
const INF: usize = usize::MAX;
macro_rules! reps {
    ($lo:expr, $hi:expr, $check:expr, $i:expr, $s:expr, $t:expr; $($x:tt $y:tt),*) => {
        match ($lo, $hi) { $(($x, $y) => run::<RepMinMax<Ch<'_, 0>, Tw<0>, $x, $y>>($check, $i, $s, $t),)* r => panic!("bounds {r:?}") }
    };
}

pub fn go<'i>(e: &'static E, c: bool, i: Position<'i>, s: &mut Stack<Span<'i>>, t: &mut Tracker<'i, Rl>) -> Res<'i> {
    let old = CUR.with(|x| x.replace(e));
    let r = go2(e, c, i, s, t);
    CUR.with(|x| x.set(old));
    r
}
fn go2<'i>(e: &'static E, c: bool, i: Position<'i>, s: &mut Stack<Span<'i>>, t: &mut Tracker<'i, Rl>) -> Res<'i> {
    match e {
        E::Str(x) => by_index!(lit(x), c, i, s, t, Str: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42),
        E::Ins(x) => by_index!(lit(x), c, i, s, t, Ins: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42),
        E::Rng(a, b) => ranges!(*a, *b, c, i, s, t; 'a' 'a', 'a' 'b', 'b' 'b', 'a' 'c', 'b' 'c', 'a' 'z', 'a' 'é', 'b' 'é', 'é' 'é', 'é' 'ê', '\0' 'a', '\u{10000}' '\u{10ffff}', 'b' 'a', '\u{7f}' '\u{80}', '\u{80}' '\u{7ff}', '\u{800}' '\u{ffff}', '日' '日'),
        E::Cls(_) => panic!("classes are not explored here"),
        E::Any => run::<any>(c, i, s, t),
        E::Soi => run::<soi>(c, i, s, t),
        E::Eoi => run::<eoi>(c, i, s, t),
        E::Nl => run::<newline>(c, i, s, t),
        E::Empty => run::<Empty>(c, i, s, t),
        E::Fail => run::<NONE>(c, i, s, t),
        E::Skip(0) => run::<SkipChar<'_, 0>>(c, i, s, t),
        E::Skip(1) => run::<SkipChar<'_, 1>>(c, i, s, t),
        E::Skip(2) => run::<SkipChar<'_, 2>>(c, i, s, t),
        E::Skip(3) => run::<SkipChar<'_, 3>>(c, i, s, t),
        E::Skip(_) => panic!("skip"),
        E::Chr('a') => run::<Char<'a'>>(c, i, s, t),
        E::Chr('é') => run::<Char<'é'>>(c, i, s, t),
        E::Chr('日') => run::<Char<'日'>>(c, i, s, t),
        E::Chr('😀') => run::<Char<'😀'>>(c, i, s, t),
        E::Chr('\n') => run::<Char<'\n'>>(c, i, s, t),
        E::Chr(_) => panic!("character"),
        E::Peek => run::<peek<'_>>(c, i, s, t),
        E::PeekAll => run::<peek_all<'_>>(c, i, s, t),
        E::Pop => run::<pop<'_>>(c, i, s, t),
        E::PopAll => run::<pop_all<'_>>(c, i, s, t),
        E::Drop => run::<drop>(c, i, s, t),
        E::Sl(a, b) => slices!(*a, *b, c, i, s, t; -13 -12 -9 -5 -3 -2 -1 0 1 2 3 4 5 9 12 13),
        E::Push(_) => run::<push<Ch<'_, 0>>>(c, i, s, t),
        E::Opt(_) => run::<Option<Ch<'_, 0>>>(c, i, s, t),
        E::Pos(_) => run::<Positive<Ch<'_, 0>>>(c, i, s, t),
        E::Neg(_) => run::<Negative<Ch<'_, 0>>>(c, i, s, t),
        E::Rep(_, _, lo, hi) => reps!(*lo, hi.unwrap_or(INF), c, i, s, t;
            0 INF, 1 INF, 2 INF, 3 INF, 4 INF, 5 INF, 6 INF, 7 INF, 8 INF, 9 INF, 10 INF, 11 INF, 12 INF, 13 INF, 0 0, 0 1, 1 1, 0 2, 1 2, 2 2, 0 3, 1 3, 2 3, 3 3, 0 4, 1 4, 2 4, 3 4, 4 4, 0 5, 1 5, 2 5, 3 5, 4 5, 5 5, 0 6, 1 6, 2 6, 3 6, 4 6, 5 6, 6 6, 0 7, 1 7, 2 7, 3 7, 4 7, 5 7, 6 7, 7 7, 0 8, 1 8, 2 8, 3 8, 4 8, 5 8, 6 8, 7 8, 8 8, 0 9, 1 9, 2 9, 3 9, 4 9, 5 9, 6 9, 7 9, 8 9, 9 9, 0 10, 1 10, 2 10, 3 10, 4 10, 5 10, 6 10, 7 10, 8 10, 9 10, 10 10, 0 11, 1 11, 2 11, 3 11, 4 11, 5 11, 6 11, 7 11, 8 11, 9 11, 10 11, 11 11, 0 12, 1 12, 2 12, 3 12, 4 12, 5 12, 6 12, 7 12, 8 12, 9 12, 10 12, 11 12, 12 12, 0 13, 1 13, 2 13, 3 13, 4 13, 5 13, 6 13, 7 13, 8 13, 9 13, 10 13, 11 13, 12 13, 13 13, 2 1),
        E::Seq(v) => seq(v.len(), c, i, s, t),
        E::Cho(v) => cho(v.len(), c, i, s, t),
        E::Nm(..) => panic!("unresolved name"),
        E::R(k) | E::Inst(k, _) => match k {
            0 => run::<N0<'_>>(c, i, s, t),
            1 => run::<N1<'_>>(c, i, s, t),
            2 => run::<N2<'_>>(c, i, s, t),
            3 => run::<N3<'_>>(c, i, s, t),
            4 => run::<N4<'_>>(c, i, s, t),
            5 => run::<N5<'_>>(c, i, s, t),
            6 => run::<N6<'_>>(c, i, s, t),
            7 => run::<N7<'_>>(c, i, s, t),
            8 => run::<N8<'_>>(c, i, s, t),
            9 => run::<N9<'_>>(c, i, s, t),
            10 => run::<N10<'_>>(c, i, s, t),
            11 => run::<N11<'_>>(c, i, s, t),
            12 => run::<N12<'_>>(c, i, s, t),
            13 => run::<N13<'_>>(c, i, s, t),
            14 => run::<N14<'_>>(c, i, s, t),
            15 => run::<N15<'_>>(c, i, s, t),
            16 => run::<N16<'_>>(c, i, s, t),
            17 => run::<N17<'_>>(c, i, s, t),
            18 => run::<N18<'_>>(c, i, s, t),
            19 => run::<N19<'_>>(c, i, s, t),
            _ => panic!("rule"),
        },
    }
}

/// The never-failing parse, for the repetitions that have one.
pub fn never<'i>(lo: usize, hi: Option<usize>, i: Position<'i>, s: &mut Stack<Span<'i>>) -> Option<(Position<'i>, V)> {
    macro_rules! nf {
        ($($y:tt),*) => { match hi.unwrap_or(INF) { $($y => {
            let (p, n) = <RepMinMax<Ch<'_, 0>, Tw<0>, 0, $y> as NeverFailedTypedNode<'_, Rl>>::parse_with_partial(i, s);
            Some((p, n.v()))
        },)* r => panic!("bounds {r:?}") } };
    }
    if lo != 0 {
        return None;
    }
    nf!(INF, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)
}
/// The same through the entry point that takes text.
pub fn never_str(hi: Option<usize>, i: &str) -> (usize, V) {
    macro_rules! nf {
        ($($y:tt),*) => { match hi.unwrap_or(INF) { $($y => {
            let (p, n) = <RepMinMax<Ch<'_, 0>, Tw<0>, 0, $y> as NeverFailedTypedNode<'_, Rl>>::parse_partial(i);
            (p.pos(), n.v())
        },)* r => panic!("bounds {r:?}") } };
    }
    nf!(INF, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)
}
