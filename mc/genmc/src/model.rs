//! Grammars as item lists, and which of them are well formed (independent of the generator).
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    No,
    Call(Vec<X>),
    Slice(&'static str),
}
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    /// A literal, as written.
    Lit(&'static str),
    Path(&'static str, A),
    /// Sequence with `-`, `~` or `^`.
    Seq(Box<X>, char, Box<X>),
    Cho(Box<X>, Box<X>),
    Pre(char, Box<X>),
    /// Trivia mark (or `-` for none) and postfix operator.
    Post(Box<X>, char, &'static str),
}
pub fn lit() -> X {
    X::Lit("\"z\"")
}
pub fn p(s: &'static str) -> X {
    X::Path(s, A::No)
}
pub fn call(s: &'static str, a: Vec<X>) -> X {
    X::Path(s, A::Call(a))
}
pub fn seq(a: X, t: char, b: X) -> X {
    X::Seq(Box::new(a), t, Box::new(b))
}
pub fn cho(a: X, b: X) -> X {
    X::Cho(Box::new(a), Box::new(b))
}
pub fn pre(c: char, a: X) -> X {
    X::Pre(c, Box::new(a))
}
pub fn post(a: X, t: char, o: &'static str) -> X {
    X::Post(Box::new(a), t, o)
}
impl X {
    pub fn text(&self) -> String {
        match self {
            X::Lit(s) => s.to_string(),
            X::Path(s, A::No) => s.to_string(),
            X::Path(s, A::Slice(r)) => format!("{s}[{r}]"),
            X::Path(s, A::Call(a)) => format!("{s}({})", a.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")),
            X::Seq(a, t, b) => format!("({} {t} {})", a.text(), b.text()),
            X::Cho(a, b) => format!("({} | {})", a.text(), b.text()),
            X::Pre(c, a) => format!("{c}{}", a.text()),
            X::Post(a, t, o) => {
                let t = if *t == '-' { String::new() } else { t.to_string() };
                let a = match **a {
                    X::Pre(..) | X::Post(..) => format!("({})", a.text()),
                    _ => a.text(),
                };
                format!("{a}{t}{o}")
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct R {
    /// `~` and `^` define trivia.
    pub name: &'static str,
    pub params: Vec<&'static str>,
    pub silent: bool,
    pub body: X,
}
pub fn r(name: &'static str, body: X) -> R {
    R { name, params: vec![], silent: false, body }
}
pub fn rs(name: &'static str, body: X) -> R {
    R { silent: true, ..r(name, body) }
}
pub fn rg(name: &'static str, params: &[&'static str], body: X) -> R {
    R { params: params.to_vec(), ..r(name, body) }
}
pub fn rm(name: &'static str, params: &[&'static str], body: X) -> R {
    R { silent: true, ..rg(name, params, body) }
}
#[derive(Clone, Debug)]
pub enum It {
    R(R),
    /// `use pest::...`
    B(&'static str, &'static str),
    /// File `<name>.pest`, name in this module, number.
    F(&'static str, &'static str, usize),
}
#[derive(Clone, Debug)]
pub struct G {
    /// Files with their names; the root first.
    pub files: Vec<(&'static str, Vec<It>)>,
}
pub fn file_text(f: &[It]) -> String {
    let mut o = String::new();
    for i in f {
        match i {
            It::B(p, a) => o.push_str(&format!("use {p} as {a}\n")),
            It::F(n, a, _) => o.push_str(&format!("use {n} as {a}\n")),
            It::R(r) => {
                let ps = if r.params.is_empty() { String::new() } else { format!("({})", r.params.join(", ")) };
                let b = r.body.text();
                if r.silent {
                    o.push_str(&format!("{}{ps} = _{{ {b} }}\n", r.name));
                } else {
                    o.push_str(&format!("{}{ps} = {b}\n", r.name));
                }
            }
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Good,
    Bad(String),
    /// The documentation does not say.
    Open(String),
}
use Verdict::*;

/// Built-in rules: without arguments, with a slice, with that many arguments.
fn builtin(path: &[&str]) -> Option<BI> {
    let b = |direct, slice, call| Some(BI::Rule { direct, slice, call });
    match path {
        [] | ["stack"] | ["unicode"] => Some(BI::Mod),
        ["soi" | "eoi" | "any" | "newline"]
        | ["ascii" | "ascii_digit" | "ascii_nonzero_digit" | "ascii_bin_digit" | "ascii_oct_digit"]
        | ["ascii_hex_digit" | "ascii_alpha_lower" | "ascii_alpha_upper" | "ascii_alpha" | "ascii_alphanumeric"] => {
            b(true, false, None)
        }
        ["stack", "peek"] => b(true, true, None),
        ["stack", "peek_all" | "drop" | "pop" | "pop_all"] => b(true, false, None),
        ["stack", "push"] => b(false, false, Some(1)),
        ["unicode", "alphabetic" | "han" | "uppercase_letter" | "letter"] => b(true, false, None),
        _ => None,
    }
}
#[derive(Clone, Debug)]
enum BI {
    Mod,
    Rule { direct: bool, slice: bool, call: Option<usize> },
}
#[derive(Clone, Debug)]
enum Nd {
    Rule(usize, usize),
    B(Vec<String>),
    Mod(usize),
}
struct Md {
    file: usize,
    names: BTreeMap<String, Nd>,
    opt: bool,
    man: bool,
}
struct M<'a> {
    g: &'a G,
    mods: Vec<Md>,
    bad: Vec<String>,
    open: Vec<String>,
    steps: u64,
}
#[derive(Clone)]
struct Env<'a> {
    /// Where names are looked up.
    md: usize,
    /// Whose trivia is meant: the module the text is written in, and the one it ends up in.
    host: usize,
    /// Parameters: of a visible rule, or replaced.
    binds: Vec<(&'a str, Option<(&'a X, std::rc::Rc<Env<'a>>)>)>,
    /// Silent rules being expanded.
    inside: Vec<(usize, usize)>,
}

impl<'a> M<'a> {
    fn module(&mut self, file: usize) -> usize {
        let k = self.mods.len();
        self.mods.push(Md { file, names: BTreeMap::new(), opt: false, man: false });
        let items = &self.g.files[file].1;
        for (i, it) in items.iter().enumerate() {
            let (n, nd) = match it {
                It::B(path, a) => {
                    let v: Vec<&str> = path.split("::").skip(1).collect();
                    if builtin(&v).is_none() {
                        self.bad.push(format!("no built-in {path}"));
                    }
                    (*a, Nd::B(v.iter().map(|s| s.to_string()).collect()))
                }
                It::F(_, a, to) => {
                    let m = self.module(*to);
                    (*a, Nd::Mod(m))
                }
                It::R(r) if r.name == "~" || r.name == "^" => {
                    let x = if r.name == "~" { &mut self.mods[k].opt } else { &mut self.mods[k].man };
                    if std::mem::replace(x, true) {
                        self.bad.push(format!("{} defined twice", r.name));
                    }
                    continue;
                }
                It::R(r) => (r.name, Nd::Rule(k, i)),
            };
            if self.mods[k].names.insert(n.into(), nd).is_some() {
                self.bad.push(format!("{n} defined twice"));
            }
        }
        k
    }
    fn rule(&self, m: usize, i: usize) -> &'a R {
        match &self.g.files[self.mods[m].file].1[i] {
            It::R(r) => r,
            _ => unreachable!(),
        }
    }
    /// What a path stands for.
    fn look(&self, md: usize, path: &[&str]) -> Result<Nd, String> {
        if path[0] == "pest" {
            let v = &path[1..];
            return match builtin(v) {
                Some(_) => Ok(Nd::B(v.iter().map(|s| s.to_string()).collect())),
                None => Err(format!("no built-in {}", path.join("::"))),
            };
        }
        let mut at = Nd::Mod(md);
        for s in path {
            at = match &at {
                Nd::Mod(m) => self.mods[*m].names.get(*s).cloned().ok_or(format!("no {s} in {}", path.join("::")))?,
                Nd::B(v) => {
                    let mut v = v.clone();
                    v.push(s.to_string());
                    let w: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
                    builtin(&w).ok_or(format!("no {s} in {}", path.join("::")))?;
                    Nd::B(v)
                }
                Nd::Rule(..) => return Err(format!("{s} is looked for in a rule")),
            }
        }
        Ok(at)
    }
    fn trivia(&mut self, t: char, e: &Env<'a>) {
        let has = |m: &Md| match t {
            '~' => m.opt,
            '^' => m.man,
            _ => true,
        };
        // The text of an imported silent rule ends up in another module.
        let (own, host) = (has(&self.mods[e.md]), has(&self.mods[e.host]));
        if !own {
            self.bad.push(format!("{t} is not defined"));
        } else if !host {
            self.open.push(format!("{t} of an imported silent rule"));
        }
    }
    fn expr(&mut self, x: &'a X, e: &std::rc::Rc<Env<'a>>) {
        self.steps += 1;
        if self.steps > 20000 {
            self.open.push("expands too far".into());
            return;
        }
        match x {
            X::Lit(_) => (),
            X::Seq(a, t, b) => {
                self.trivia(*t, e);
                self.expr(a, e);
                self.expr(b, e);
            }
            X::Cho(a, b) => {
                self.expr(a, e);
                self.expr(b, e);
            }
            X::Pre(_, a) => self.expr(a, e),
            X::Post(a, t, o) => {
                // `?` repeats nothing.
                if *o == "?" && *t != '-' {
                    let has = if *t == '~' { self.mods[e.md].opt } else { self.mods[e.md].man };
                    if !has {
                        self.open.push("trivia mark on `?`".into());
                    }
                } else {
                    self.trivia(*t, e);
                }
                self.expr(a, e);
            }
            X::Path(s, args) => {
                let v: Vec<&str> = s.split("::").collect();
                if v.len() == 1 {
                    if let Some((_, b)) = e.binds.iter().find(|b| b.0 == v[0]) {
                        if *args != A::No {
                            self.bad.push(format!("arguments for parameter {}", v[0]));
                        } else if let Some((x, e2)) = b {
                            // The argument lands where the parameter stood.
                            let e2 = e2.clone();
                            self.expr(x, &e2);
                        }
                        return;
                    }
                }
                match self.look(e.md, &v) {
                    Err(m) => self.bad.push(m),
                    Ok(Nd::Mod(_)) => self.bad.push(format!("{s} is a module")),
                    Ok(Nd::B(path)) => {
                        let w: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
                        match builtin(&w).unwrap() {
                            BI::Mod => self.bad.push(format!("{s} is a module")),
                            BI::Rule { direct, slice, call } => match args {
                                A::No if direct => (),
                                A::Slice(_) if slice => (),
                                A::Call(a) if call == Some(a.len()) => (),
                                A::Call(a) if a.is_empty() && call.is_none() => self.open.push("empty call of a built-in".into()),
                                _ => self.bad.push(format!("wrong arguments for {s}")),
                            },
                        }
                        if let A::Call(a) = args {
                            a.iter().for_each(|a| self.expr(a, e));
                        }
                    }
                    Ok(Nd::Rule(m, i)) => {
                        let r = self.rule(m, i);
                        let args: &'a [X] = match args {
                            A::No => &[],
                            A::Slice(_) => {
                                self.bad.push(format!("{s} cannot be sliced"));
                                return;
                            }
                            A::Call(a) => a,
                        };
                        if args.len() != r.params.len() {
                            self.bad.push(format!("{s} takes {} arguments", r.params.len()));
                            return;
                        }
                        if r.silent && !r.params.is_empty() {
                            if e.inside.contains(&(m, i)) {
                                self.bad.push(format!("{s} expands itself"));
                                return;
                            }
                            // Arguments that are dropped are never looked at.
                            for (q, a) in r.params.iter().zip(args) {
                                if !mentions(&r.body, q) {
                                    let (n, o) = (self.bad.len(), self.open.len());
                                    self.expr(a, e);
                                    if self.bad.len() > n || self.open.len() > o {
                                        self.bad.truncate(n);
                                        self.open.truncate(o);
                                        self.open.push("mistake in a dropped argument".into());
                                    }
                                }
                            }
                            let mut inside = e.inside.clone();
                            inside.push((m, i));
                            let binds = r.params.iter().zip(args).map(|(p, a)| (*p, Some((a, e.clone())))).collect();
                            let e2 = std::rc::Rc::new(Env { md: m, host: e.host, binds, inside });
                            self.expr(&r.body, &e2);
                        } else {
                            args.iter().for_each(|a| self.expr(a, e));
                        }
                    }
                }
            }
        }
    }
    /// Does the text of a silent rule mention itself, however deep?
    fn cyclic(&self, at: (usize, usize), seen: &mut Vec<(usize, usize)>) -> bool {
        if seen.contains(&at) {
            return true;
        }
        let r = self.rule(at.0, at.1);
        seen.push(at);
        let mut ps = vec![];
        paths(&r.body, &mut ps);
        for q in ps {
            let v: Vec<&str> = q.split("::").collect();
            if v.len() == 1 && r.params.contains(&v[0]) {
                continue;
            }
            if let Ok(Nd::Rule(m, i)) = self.look(at.0, &v) {
                let t = self.rule(m, i);
                if t.silent && !t.params.is_empty() && self.cyclic((m, i), seen) {
                    return true;
                }
            }
        }
        seen.pop();
        false
    }
}
fn paths<'a>(x: &'a X, out: &mut Vec<&'a str>) {
    match x {
        X::Lit(_) => (),
        X::Path(s, a) => {
            out.push(s);
            if let A::Call(a) = a {
                a.iter().for_each(|x| paths(x, out));
            }
        }
        X::Seq(a, _, b) | X::Cho(a, b) => {
            paths(a, out);
            paths(b, out);
        }
        X::Pre(_, a) | X::Post(a, ..) => paths(a, out),
    }
}
fn mentions(x: &X, q: &str) -> bool {
    let mut v = vec![];
    paths(x, &mut v);
    v.contains(&q)
}

/// Is this grammar well formed? With the number of names looked at.
pub fn legal(g: &G) -> (Verdict, u64) {
    let mut m = M { g, mods: vec![], bad: vec![], open: vec![], steps: 0 };
    m.module(0);
    for k in 0..m.mods.len() {
        for (i, it) in g.files[m.mods[k].file].1.iter().enumerate() {
            let It::R(r) = it else { continue };
            if r.silent && !r.params.is_empty() {
                if m.cyclic((k, i), &mut vec![]) {
                    m.open.push("a silent rule with arguments mentions itself".into());
                    continue;
                }
                // It counts where it is expanded, which may be nowhere.
                let e = Env { md: k, host: k, binds: r.params.iter().map(|q| (*q, None)).collect(), inside: vec![(k, i)] };
                let n = m.bad.len();
                m.expr(&r.body, &std::rc::Rc::new(e));
                if m.bad.len() > n {
                    m.bad.truncate(n);
                    m.open.push("mistake in a silent rule that may not be used".into());
                }
                continue;
            }
            if (r.name == "~" || r.name == "^") && !r.params.is_empty() {
                m.open.push("trivia with parameters".into());
                continue;
            }
            let e = Env { md: k, host: k, binds: r.params.iter().map(|q| (*q, None)).collect(), inside: vec![] };
            m.expr(&r.body, &std::rc::Rc::new(e));
        }
    }
    let steps = m.steps;
    if let Some(b) = m.bad.first() {
        return (Bad(b.clone()), steps);
    }
    if let Some(o) = m.open.first() {
        return (Open(o.clone()), steps);
    }
    (Good, steps)
}
