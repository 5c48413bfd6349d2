//! Reference semantics: a purely functional PEG evaluator.
//!
//! State of an evaluation: (expression node, position, stack). The stack is a value, so that
//! backtracking needs no bookkeeping at all. Failures are logged as events and turned into a
//! report afterwards, in one pass over the complete log.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Canonical tree value.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub enum V {
    /// Matched, nothing to say.
    #[default]
    U,
    C(char),
    T(String),
    P(usize, usize),
    L(Vec<V>),
    Alt(u8, Box<V>),
    N,
    S(Box<V>),
    Rep(Vec<V>),
    Pos(Box<V>),
    Neg,
    Push(Box<V>),
    R(usize, usize, usize, Box<V>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PairV {
    pub rule: usize,
    pub s: usize,
    pub e: usize,
    pub ch: Vec<PairV>,
}

#[derive(Debug)]
pub struct Cell<'a> {
    pub txt: &'a str,
    pub next: Stk<'a>,
    /// Identifies the whole stack.
    h: u64,
}
fn cons<'a>(txt: &'a str, next: Stk<'a>) -> Stk<'a> {
    let h = mix(mix(next.as_ref().map_or(7, |c| c.h), txt.as_ptr() as u64), txt.len() as u64);
    Some(Rc::new(Cell { txt, next, h }))
}
pub type Stk<'a> = Option<Rc<Cell<'a>>>;

pub fn stk_vec<'a>(s: &Stk<'a>) -> Vec<&'a str> {
    let mut v = vec![];
    let mut c = s.clone();
    while let Some(x) = c {
        v.push(x.txt);
        c = x.next.clone();
    }
    v.reverse();
    v
}
pub fn stk_from<'a>(v: &[&'a str]) -> Stk<'a> {
    let mut s = None;
    for t in v {
        s = cons(t, s);
    }
    s
}

pub struct Div;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Special {
    Slice(isize, Option<isize>),
    EmptyStack,
}
impl Special {
    pub fn text(&self) -> String {
        match self {
            Special::Slice(a, Some(b)) => format!("Peek slice {a}..{b} out of bound."),
            Special::Slice(a, None) => format!("Peek slice {a}.. out of bound."),
            Special::EmptyStack => "Nothing to pop or drop.".into(),
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum What {
    Expected(usize),
    Unexpected(usize),
    Tried,
    Special(Special),
}
#[derive(Clone, Copy, Debug)]
struct Ev {
    pos: usize,
    upper: Option<usize>,
    what: What,
}

/// (expected, unexpected, special): the first two sorted without duplicates.
pub type Group = (Vec<usize>, Vec<usize>, Vec<Special>);
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Report {
    pub pos: usize,
    pub groups: BTreeMap<Option<usize>, Group>,
}

/// Rule number that stands for the end of input.
pub const EOI: usize = usize::MAX;

pub struct Run<'a> {
    pub g: &'a Gram,
    pub input: &'a str,
    pub cls: &'a dyn Fn(&str, char) -> bool,
    pub fuel: u32,
    depth: u32,
    pub max_depth: u32,
    events: Vec<Ev>,
    calls: Vec<(usize, usize, bool)>,
    positive: bool,
    pub transitions: u64,
    pub states: Vec<u64>,
    pub count_states: bool,
    /// Log failures for the report?
    pub track: bool,
}

pub fn no_cls(n: &str, _: char) -> bool {
    panic!("class {n} not available here")
}

fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
}

type Ans<'a> = Result<Option<(usize, Stk<'a>, V)>, Div>;

impl<'a> Run<'a> {
    pub fn new(g: &'a Gram, input: &'a str) -> Self {
        Run {
            g,
            input,
            cls: &no_cls,
            fuel: 4000,
            depth: 0,
            max_depth: 60,
            events: vec![],
            calls: vec![],
            positive: true,
            transitions: 0,
            states: vec![],
            count_states: false,
            track: true,
        }
    }
    fn rest(&self, p: usize) -> &'a str {
        &self.input[p..]
    }
    fn lit(&self, p: usize, t: &str) -> Option<usize> {
        if self.rest(p).starts_with(t) {
            Some(p + t.len())
        } else {
            None
        }
    }
    fn special(&mut self, p: usize, s: Special) {
        if self.track {
            let upper = self.upper(p);
            self.events.push(Ev { pos: p, upper, what: What::Special(s) });
        }
    }
    fn upper(&self, p: usize) -> Option<usize> {
        self.calls.iter().rev().find(|c| c.1 != p).map(|c| c.0)
    }
    /// Try `f` as a call of `rule` at `p`.
    fn call<T>(&mut self, rule: usize, p: usize, f: impl FnOnce(&mut Self) -> Result<Option<T>, Div>) -> Result<Option<T>, Div> {
        if !self.track {
            return f(self);
        }
        if let Some(c) = self.calls.last_mut() {
            c.2 = true;
        }
        self.calls.push((rule, p, false));
        let r = f(self)?;
        let (_, _, has) = self.calls.pop().unwrap();
        if !has {
            let what = match (r.is_some(), self.positive) {
                (false, true) => What::Expected(rule),
                (true, false) => What::Unexpected(rule),
                _ => What::Tried,
            };
            let upper = self.upper(p);
            self.events.push(Ev { pos: p, upper, what });
        }
        Ok(r)
    }
    /// Trivia of kind `t` at `p`.
    fn trivia(&mut self, t: Tv, p: usize, st: Stk<'a>) -> Result<Option<(usize, Stk<'a>)>, Div> {
        let g = self.g;
        let e = match t {
            Tv::No => return Ok(Some((p, st))),
            Tv::Opt(m) => &g.triv[m as usize].0,
            Tv::Man(m) => &g.triv[m as usize].1,
        };
        match e {
            None => Ok(Some((p, st))),
            Some(e) => Ok(self.eval(e, p, st)?.map(|(p, s, _)| (p, s))),
        }
    }
    pub fn eval(&mut self, e: &'a E, p: usize, st: Stk<'a>) -> Ans<'a> {
        if self.fuel == 0 || self.depth >= self.max_depth {
            return Err(Div);
        }
        self.fuel -= 1;
        self.transitions += 1;
        if self.count_states {
            let h = mix(e as *const E as u64, p as u64 + 1);
            self.states.push(mix(h, st.as_ref().map_or(3, |c| c.h)));
        }
        self.depth += 1;
        let r = self.eval2(e, p, st);
        self.depth -= 1;
        r
    }
    fn eval2(&mut self, e: &'a E, p: usize, st: Stk<'a>) -> Ans<'a> {
        let input = self.input;
        let ch = self.rest(p).chars().next();
        let one = |c: Option<char>, st: Stk<'a>| Ok(c.map(|c| (p + c.len_utf8(), st, V::C(c))));
        match e {
            E::Str(s) => Ok(self.lit(p, s).map(|q| (q, st, V::U))),
            E::Ins(s) => {
                // Same number of bytes, equal after folding ASCII letters, whole characters only.
                let q = p + s.len();
                let ok = input.is_char_boundary(q)
                    && q <= input.len()
                    && input[p..q].bytes().zip(s.bytes()).all(|(a, b)| {
                        a.to_ascii_lowercase() == b.to_ascii_lowercase()
                    });
                Ok(if ok { Some((q, st, V::T(input[p..q].into()))) } else { None })
            }
            E::Rng(a, b) => one(ch.filter(|c| a <= c && c <= b), st),
            E::Cls(n) => {
                let f = self.cls;
                one(ch.filter(|c| f(n, *c)), st)
            }
            E::Any => one(ch, st),
            E::Soi => Ok(if p == 0 { Some((p, st, V::U)) } else { None }),
            E::Eoi => Ok(if p == input.len() { Some((p, st, V::U)) } else { None }),
            E::Nl => {
                for (t, n) in [("\r\n", "CRLF"), ("\n", "LF"), ("\r", "CR")] {
                    if let Some(q) = self.lit(p, t) {
                        return Ok(Some((q, st, V::T(n.into()))));
                    }
                }
                Ok(None)
            }
            E::Empty => Ok(Some((p, st, V::U))),
            E::Chr(c) => Ok(self.lit(p, &c.to_string()).map(|q| (q, st, V::U))),
            E::Fail => Ok(None),
            E::Skip(n) => {
                let mut q = p;
                for _ in 0..*n {
                    match input[q..].chars().next() {
                        Some(c) => q += c.len_utf8(),
                        None => return Ok(None),
                    }
                }
                Ok(Some((q, st, V::P(p, q))))
            }
            E::Peek => match &st {
                None => {
                    self.special(p, Special::EmptyStack);
                    Ok(None)
                }
                Some(t) => Ok(self.lit(p, t.txt).map(|q| (q, st.clone(), V::P(p, q)))),
            },
            E::Pop => match &st {
                None => {
                    self.special(p, Special::EmptyStack);
                    Ok(None)
                }
                Some(t) => Ok(self.lit(p, t.txt).map(|q| (q, t.next.clone(), V::P(p, q)))),
            },
            E::Drop => match &st {
                None => {
                    self.special(p, Special::EmptyStack);
                    Ok(None)
                }
                Some(t) => Ok(Some((p, t.next.clone(), V::U))),
            },
            E::PeekAll | E::PopAll => {
                let all: Vec<&str> = stk_vec(&st).into_iter().rev().collect();
                Ok(self.lits(p, &all).map(|q| {
                    let st = if *e == E::PopAll { None } else { st };
                    (q, st, V::P(p, q))
                }))
            }
            E::Sl(a, b) => {
                let all = stk_vec(&st);
                let n = all.len() as isize;
                let b2 = b.unwrap_or(n);
                let (lo, hi) = (if *a < 0 { n + *a } else { *a }, if b2 < 0 { n + b2 } else { b2 });
                if lo < 0 || lo > n || hi < 0 || hi > n {
                    self.special(p, Special::Slice(*a, *b));
                    return Ok(None);
                }
                let sel: Vec<&str> = if lo < hi { all[lo as usize..hi as usize].to_vec() } else { vec![] };
                Ok(self.lits(p, &sel).map(|q| (q, st, V::U)))
            }
            E::Push(x) => Ok(self.eval(x, p, st)?.map(|(q, st, v)| {
                let st = cons(&input[p..q], st);
                (q, st, V::Push(Box::new(v)))
            })),
            E::Seq(parts) => {
                let (mut q, mut s, mut vs) = (p, st, Vec::with_capacity(parts.len()));
                for (i, (t, x)) in parts.iter().enumerate() {
                    if i > 0 {
                        match self.trivia(*t, q, s)? {
                            None => return Ok(None),
                            Some((q2, s2)) => {
                                q = q2;
                                s = s2;
                            }
                        }
                    }
                    match self.eval(x, q, s)? {
                        None => return Ok(None),
                        Some((q2, s2, v)) => {
                            q = q2;
                            s = s2;
                            vs.push(v);
                        }
                    }
                }
                Ok(Some((q, s, V::L(vs))))
            }
            E::Cho(alts) => {
                for (i, x) in alts.iter().enumerate() {
                    if let Some((q, s, v)) = self.eval(x, p, st.clone())? {
                        return Ok(Some((q, s, V::Alt(i as u8, Box::new(v)))));
                    }
                }
                Ok(None)
            }
            E::Opt(x) => Ok(Some(match self.eval(x, p, st.clone())? {
                Some((q, s, v)) => (q, s, V::S(Box::new(v))),
                None => (p, st, V::N),
            })),
            E::Rep(x, t, lo, hi) => {
                let (mut q, mut s, mut vs) = (p, st, vec![]);
                let mut still = 0;
                while hi.map_or(true, |h| vs.len() < h) {
                    let start = if vs.is_empty() { Some((q, s.clone())) } else { self.trivia(*t, q, s.clone())? };
                    let next = match start {
                        None => None,
                        Some((q1, s1)) => self.eval(x, q1, s1)?,
                    };
                    match next {
                        None => break,
                        Some((q2, s2, v)) => {
                            let same = match (&s, &s2) {
                                (None, None) => true,
                                (Some(a), Some(b)) => Rc::ptr_eq(a, b),
                                _ => false,
                            };
                            // A loop that stands still, or that only moves the stack for long.
                            still = if q2 == q { still + 1 } else { 0 };
                            if hi.is_none() && (still > 16 || (q2 == q && same && !vs.is_empty())) {
                                return Err(Div);
                            }
                            q = q2;
                            s = s2;
                            vs.push(v);
                        }
                    }
                }
                Ok(if vs.len() >= *lo { Some((q, s, V::Rep(vs))) } else { None })
            }
            E::Pos(x) => {
                let old = std::mem::replace(&mut self.positive, true);
                let r = self.eval(x, p, st.clone())?;
                self.positive = old;
                Ok(r.map(|(_, _, v)| (p, st, V::Pos(Box::new(v)))))
            }
            E::Neg(x) => {
                let old = std::mem::replace(&mut self.positive, false);
                let r = self.eval(x, p, st.clone())?;
                self.positive = old;
                Ok(match r {
                    None => Some((p, st, V::Neg)),
                    Some(_) => None,
                })
            }
            E::R(i) => {
                let rule = &self.g.rules[*i];
                let body = rule.body.as_ref().expect("rule without body");
                self.rule(rule.base.unwrap_or(*i), body, p, st)
            }
            E::Inst(i, body) => self.rule(*i, body, p, st),
            E::Nm(..) => unreachable!("unresolved name"),
        }
    }
    fn rule(&mut self, i: usize, body: &'a E, p: usize, st: Stk<'a>) -> Ans<'a> {
        let r = self.call(i, p, |me| me.eval(body, p, st))?;
        Ok(r.map(|(q, s, v)| (q, s, V::R(i, p, q, Box::new(v)))))
    }
    fn lits(&self, mut p: usize, ts: &[&str]) -> Option<usize> {
        for t in ts {
            p = self.lit(p, t)?;
        }
        Some(p)
    }
    /// The end of input as whole-input parsing demands it.
    pub fn end(&mut self, p: usize) -> bool {
        let ok = p == self.input.len();
        matches!(self.call(EOI, p, |_| Ok(if ok { Some(()) } else { None })), Ok(Some(())))
    }
    pub fn report(&self) -> Report {
        let pos = self.events.iter().map(|e| e.pos).max().unwrap_or(0);
        let mut groups: BTreeMap<Option<usize>, Group> = BTreeMap::new();
        for e in self.events.iter().filter(|e| e.pos == pos) {
            match e.what {
                What::Tried => (),
                What::Expected(r) => groups.entry(e.upper).or_default().0.push(r),
                What::Unexpected(r) => groups.entry(e.upper).or_default().1.push(r),
                What::Special(s) => groups.entry(e.upper).or_default().2.push(s),
            }
        }
        for g in groups.values_mut() {
            for v in [&mut g.0, &mut g.1] {
                v.sort();
                v.dedup();
            }
        }
        Report { pos, groups }
    }
    pub fn distinct_states(&mut self) -> u64 {
        self.states.sort_unstable();
        self.states.dedup();
        self.states.len() as u64
    }
}

/// Line, column (in characters) and text of the line containing `pos`.
pub fn line_col(input: &str, pos: usize) -> (usize, usize) {
    let before = &input[..pos];
    let line = before.matches('\n').count() + 1;
    let col = before.rsplit('\n').next().unwrap().chars().count() + 1;
    (line, col)
}
pub fn line_of(input: &str, pos: usize) -> &str {
    let s = input[..pos].rfind('\n').map_or(0, |i| i + 1);
    let e = input[pos..].find('\n').map_or(input.len(), |i| pos + i + 1);
    &input[s..e]
}

/// The text of an error report. `name` prints a rule.
pub fn render(input: &str, r: &Report, name: &dyn Fn(usize) -> String) -> String {
    render_by(input, r, name, &|x| x)
}
/// `order` tells how rules are sorted.
pub fn render_by(input: &str, r: &Report, name: &dyn Fn(usize) -> String, order: &dyn Fn(usize) -> usize) -> String {
    let (line, _) = line_col(input, r.pos);
    let start = input[..r.pos].rfind('\n').map_or(0, |i| i + 1);
    let nl = format!("\n{}", " ".repeat(line.to_string().len() + 3));
    let mut o = format!("{}^---", &input[start..r.pos]);
    let list = |v: &Vec<usize>| {
        let mut v = v.clone();
        v.sort_by_key(|x| order(*x));
        format!("[{}]", v.iter().map(|x| name(*x)).collect::<Vec<_>>().join(", "))
    };
    for (upper, (pos, neg, spec)) in &r.groups {
        o.push_str(&nl);
        o.push_str(&match (pos.is_empty(), neg.is_empty()) {
            (true, true) => "Unknown error (no rule tracked)".to_string(),
            (false, true) => format!("Expected {}", list(pos)),
            (true, false) => format!("Unexpected {}", list(neg)),
            (false, false) => format!("Unexpected {}, expected {}", list(neg), list(pos)),
        });
        if let Some(u) = upper {
            o.push_str(&format!(", by {}", name(*u)));
        }
        o.push('.');
        for s in spec {
            o.push_str(&nl);
            o.push_str(&s.text());
            if let Some(u) = upper {
                o.push_str(&format!(" (By {})", name(*u)));
            }
        }
    }
    o
}

/// Pairs of a derivation: visible rule nodes in order; silent rules hide everything inside.
pub fn pairs(g: &Gram, v: &V, out: &mut Vec<PairV>) {
    match v {
        V::R(i, s, e, inner) => {
            if !g.rules[*i].silent {
                let mut ch = vec![];
                pairs(g, inner, &mut ch);
                out.push(PairV { rule: *i, s: *s, e: *e, ch });
            }
        }
        V::L(vs) | V::Rep(vs) => vs.iter().for_each(|v| pairs(g, v, out)),
        V::Alt(_, v) | V::S(v) | V::Push(v) => pairs(g, v, out),
        _ => (),
    }
}
