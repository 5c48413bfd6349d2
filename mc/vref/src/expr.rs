//! Abstract grammars: the input language of the reference semantics.

/// Which trivia stands between two parts. The module index says whose definition it is.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Tv {
    No,
    Opt(u8),
    Man(u8),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum E {
    Str(String),
    Ins(String),
    Rng(char, char),
    /// A named one-character class, decided by `cls`.
    Cls(&'static str),
    Any,
    Soi,
    Eoi,
    Nl,
    Empty,
    Fail,
    Skip(usize),
    /// One exact character; core only.
    Chr(char),
    Peek,
    PeekAll,
    Pop,
    PopAll,
    Drop,
    Sl(isize, Option<isize>),
    Push(Box<E>),
    /// Parts with the trivia before each of them (the first is `No`).
    Seq(Vec<(Tv, E)>),
    Cho(Vec<E>),
    Opt(Box<E>),
    Rep(Box<E>, Tv, usize, Option<usize>),
    Pos(Box<E>),
    Neg(Box<E>),
    /// Reference to rule number i of the grammar.
    R(usize),
    /// Call of a generic rule: rule identity and its already substituted body.
    Inst(usize, Box<E>),
    /// A name as written in a grammar, with the arguments of a call. Never evaluated.
    Nm(Vec<String>, Option<Vec<E>>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Rule {
    pub name: String,
    pub body: Option<E>,
    pub silent: bool,
    /// This is a call of that generic rule.
    pub base: Option<usize>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Gram {
    pub rules: Vec<Rule>,
    /// Per module: optional trivia, mandatory trivia.
    pub triv: Vec<(Option<E>, Option<E>)>,
}

impl E {
    pub fn s(x: &str) -> E {
        E::Str(x.into())
    }
    pub fn push(e: E) -> E {
        E::Push(Box::new(e))
    }
    pub fn opt(e: E) -> E {
        E::Opt(Box::new(e))
    }
    pub fn pos(e: E) -> E {
        E::Pos(Box::new(e))
    }
    pub fn neg(e: E) -> E {
        E::Neg(Box::new(e))
    }
    pub fn rep(e: E, t: Tv, lo: usize, hi: Option<usize>) -> E {
        E::Rep(Box::new(e), t, lo, hi)
    }
    /// Name, or path with `::`.
    pub fn nm(p: &str) -> E {
        E::Nm(p.split("::").map(String::from).collect(), None)
    }
    pub fn call(p: &str, args: Vec<E>) -> E {
        E::Nm(p.split("::").map(String::from).collect(), Some(args))
    }
    pub fn seq(v: Vec<E>) -> E {
        E::Seq(v.into_iter().map(|e| (Tv::No, e)).collect())
    }
    pub fn seq2(a: E, t: Tv, b: E) -> E {
        E::Seq(vec![(Tv::No, a), (t, b)])
    }
    pub fn cho(v: Vec<E>) -> E {
        E::Cho(v)
    }
    pub fn size(&self) -> usize {
        match self {
            E::Push(e) | E::Opt(e) | E::Pos(e) | E::Neg(e) | E::Rep(e, ..) => 1 + e.size(),
            E::Inst(_, e) => 1 + e.size(),
            E::Seq(v) => 1 + v.iter().map(|x| x.1.size()).sum::<usize>(),
            E::Cho(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            E::Nm(_, Some(v)) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a E)) {
        f(self);
        match self {
            E::Push(e) | E::Opt(e) | E::Pos(e) | E::Neg(e) | E::Rep(e, ..) | E::Inst(_, e) => {
                e.visit(f)
            }
            E::Seq(v) => v.iter().for_each(|x| x.1.visit(f)),
            E::Cho(v) | E::Nm(_, Some(v)) => v.iter().for_each(|x| x.visit(f)),
            _ => (),
        }
    }
}

/// Quote a string as a pest3 literal body.
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\'' => o.push_str("\\'"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\0' => o.push_str("\\0"),
            c => o.push(c),
        }
    }
    o
}

fn tvs(t: Tv) -> &'static str {
    match t {
        Tv::No => "-",
        Tv::Opt(_) => "~",
        Tv::Man(_) => "^",
    }
}

/// Print as grammar text with as few parentheses as the documented precedences allow.
/// Levels: 0 choice, 1 sequence, 2 prefix, 3 postfix operand (primary).
pub fn text(e: &E, names: &dyn Fn(usize) -> String) -> String {
    fn go(e: &E, lvl: u8, names: &dyn Fn(usize) -> String) -> String {
        let par = |own: u8, s: String| if own < lvl { format!("({s})") } else { s };
        match e {
            E::Str(s) => format!("\"{}\"", esc(s)),
            E::Ins(s) => format!("i\"{}\"", esc(s)),
            E::Rng(a, b) => format!("'{}'..'{}'", esc(&a.to_string()), esc(&b.to_string())),
            E::Cls(n) => format!("pest::{n}"),
            E::Any => "pest::any".into(),
            E::Soi => "pest::soi".into(),
            E::Eoi => "pest::eoi".into(),
            E::Nl => "pest::newline".into(),
            E::Empty => "\"\"".into(),
            E::Fail => "!\"\"".into(),
            E::Skip(_) | E::Chr(_) => unreachable!(),
            E::Peek => "pest::stack::peek".into(),
            E::PeekAll => "pest::stack::peek_all".into(),
            E::Pop => "pest::stack::pop".into(),
            E::PopAll => "pest::stack::pop_all".into(),
            E::Drop => "pest::stack::drop".into(),
            E::Sl(a, b) => {
                // A bound may be left out, or have a sign.
                let lo = match (a, b) {
                    (0, None) => String::new(),
                    (0, Some(b)) if b % 2 == 0 => String::new(),
                    (1.., Some(..0)) => format!("+{a}"),
                    _ => a.to_string(),
                };
                format!("pest::stack::peek[{lo}..{}]", b.map_or(String::new(), |b| b.to_string()))
            }
            E::Push(e) => format!("pest::stack::push({})", go(e, 0, names)),
            E::Seq(v) => {
                let mut s = String::new();
                for (i, (t, e)) in v.iter().enumerate() {
                    if i > 0 {
                        s.push_str(&format!(" {} ", tvs(*t)));
                    }
                    s.push_str(&go(e, 2, names));
                }
                par(1, s)
            }
            E::Cho(v) => {
                let s = v.iter().map(|e| go(e, 1, names)).collect::<Vec<_>>();
                par(0, s.join(" | "))
            }
            E::Opt(e) => par(3, format!("{}?", go(e, 4, names))),
            E::Rep(e, t, lo, hi) => {
                let t = match t {
                    Tv::No => "",
                    Tv::Opt(_) => "~",
                    Tv::Man(_) => "^",
                };
                let b = match (lo, hi) {
                    (0, None) => "*".to_string(),
                    (1, None) => "+".to_string(),
                    (a, None) => format!("{{{a}..}}"),
                    (0, Some(b)) => format!("{{..{b}}}"),
                    (a, Some(b)) if a == b => format!("{{{a}}}"),
                    (a, Some(b)) => format!("{{{a}..{b}}}"),
                };
                par(3, format!("{}{}{}", go(e, 4, names), t, b))
            }
            E::Pos(e) => par(2, format!("&{}", go(e, 2, names))),
            E::Neg(e) => par(2, format!("!{}", go(e, 2, names))),
            E::R(i) => names(*i),
            E::Inst(i, _) => names(*i),
            E::Nm(p, None) => p.join("::"),
            E::Nm(p, Some(v)) => {
                let v = v.iter().map(|x| go(x, 0, names)).collect::<Vec<_>>();
                format!("{}({})", p.join("::"), v.join(", "))
            }
        }
    }
    go(e, 0, names)
}
