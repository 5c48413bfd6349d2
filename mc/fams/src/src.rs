//! Grammars as a user writes them: files with imports, rules with parameters, names.
//! Their meaning is given by translation to the reference machine's core language.
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use vref::expr::{text, Gram, Rule, Tv, E};
use vref::interp::V;

#[derive(Clone, Debug)]
pub struct RuleS {
    pub name: String,
    pub params: Vec<String>,
    pub silent: bool,
    pub body: E,
    /// How the body is written, if not in the plain way.
    pub text: Option<String>,
}
pub fn rule(name: &str, body: E) -> RuleS {
    RuleS { name: name.into(), params: vec![], silent: false, body, text: None }
}
pub fn silent(name: &str, body: E) -> RuleS {
    RuleS { silent: true, ..rule(name, body) }
}
pub fn meta(name: &str, params: &[&str], body: E) -> RuleS {
    RuleS { params: params.iter().map(|s| s.to_string()).collect(), ..rule(name, body) }
}
pub fn smeta(name: &str, params: &[&str], body: E) -> RuleS {
    RuleS { silent: true, ..meta(name, params, body) }
}

#[derive(Clone, Debug)]
pub enum Imp {
    /// Another name for a built-in rule or module.
    Builtin { path: Vec<String>, alias: String },
    /// Another file: the text after `use`, the name it gets, and its number.
    File { decl: String, name: String, to: usize },
}
impl Imp {
    pub fn file(decl: &str, to: usize) -> Imp {
        let name = decl.rsplit_once(" as ").map_or_else(
            || decl.split(" in ").next().unwrap().rsplit("::").next().unwrap(),
            |x| x.1,
        );
        Imp::File { decl: decl.into(), name: name.trim().into(), to }
    }
}

#[derive(Clone, Debug, Default)]
pub struct FileS {
    /// Relative to the directory of the grammar.
    pub path: String,
    pub imps: Vec<Imp>,
    pub rules: Vec<RuleS>,
    pub opt: Option<E>,
    pub man: Option<E>,
    /// Where among the rules the trivia definitions are written.
    pub triv_at: usize,
    /// Write bodies in braces?
    pub braces: bool,
}
impl FileS {
    pub fn text(&self) -> String {
        self.part(0, self.rules.len(), true)
    }
    /// Rules lo..hi; with imports if `head`. Trivia definitions go to the range they lie in.
    pub fn part(&self, lo: usize, hi: usize, head: bool) -> String {
        let mut o = String::new();
        if head {
            for i in &self.imps {
                match i {
                    Imp::Builtin { path, alias } => {
                        o.push_str(&format!("use {}", path.join("::")));
                        if path.last() != Some(alias) {
                            o.push_str(&format!(" as {alias}"));
                        }
                        o.push('\n');
                    }
                    Imp::File { decl, .. } => o.push_str(&format!("use {decl}\n")),
                }
            }
        }
        let none = |_: usize| -> String { panic!("rule numbers are not source") };
        let at = self.triv_at.min(self.rules.len());
        let triv = || {
            let mut t = String::new();
            for (n, e) in [("~", &self.opt), ("^", &self.man)] {
                if let Some(e) = e {
                    t.push_str(&format!("{n} = {}\n", text(e, &none)));
                }
            }
            t
        };
        for (i, r) in self.rules.iter().enumerate().take(hi).skip(lo) {
            if i == at {
                o.push_str(&triv());
            }
            let p = if r.params.is_empty() { String::new() } else { format!("({})", r.params.join(", ")) };
            let b = r.text.clone().unwrap_or_else(|| text(&r.body, &none));
            let b = if self.braces { format!("{{ {b} }}") } else { b };
            // `_` needs something that is no identifier after it.
            let b = match (r.silent, self.braces) {
                (true, false) => format!("_{{ {b} }}"),
                (true, true) => format!("_{b}"),
                _ => b,
            };
            o.push_str(&format!("{}{p} = {b}\n", r.name));
        }
        if at == self.rules.len() && hi == at {
            o.push_str(&triv());
        }
        o
    }
}

/// How the grammar is handed to the derive macro.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Layout {
    Inline,
    File,
    /// Rules split in this many sources, alternately inline and in a file.
    Split(usize),
}

#[derive(Clone, Debug)]
pub struct Case {
    /// Rule (by path from the root module) to be parsed, with rules as arguments.
    pub entry: String,
    pub args: Vec<String>,
    pub inputs: Arc<Vec<String>>,
}

#[derive(Clone, Debug)]
pub struct Src {
    pub files: Vec<FileS>,
    pub layout: Layout,
    /// Further attributes.
    pub attrs: String,
    pub rules_mod: String,
    /// The item that the parser is derived for, and a type made of it.
    pub item: (String, String),
    pub pairs: bool,
    pub getters: bool,
    pub cases: Vec<Case>,
    /// Behaves like this other grammar of the same group.
    pub like: Option<usize>,
    /// Grammars of one group land in one program.
    pub group: usize,
    /// Accessors that are asked for, present or not.
    pub names: Vec<String>,
    /// Accessors are compared.
    pub acc: bool,
    /// Non-derived rule names that have types in `unicode`.
    pub uni: Vec<String>,
}
impl Default for Src {
    fn default() -> Self {
        Src {
            files: vec![],
            layout: Layout::Inline,
            attrs: String::new(),
            rules_mod: "rules".into(),
            item: ("pub struct P;".into(), "P".into()),
            pairs: true,
            getters: true,
            cases: vec![],
            like: None,
            group: 0,
            names: vec![],
            acc: false,
            uni: vec![],
        }
    }
}
pub fn one(f: FileS) -> Src {
    Src { files: vec![FileS { path: if f.path.is_empty() { "root.pest".into() } else { f.path.clone() }, ..f }], ..Src::default() }
}
pub fn case(entry: &str, inputs: &Arc<Vec<String>>) -> Case {
    Case { entry: entry.into(), args: vec![], inputs: inputs.clone() }
}

/// A module instance: one per path of imports.
#[derive(Clone, Debug)]
pub struct Mod {
    pub file: usize,
    pub path: Vec<String>,
    pub subs: Vec<(String, usize)>,
}

/// The meaning of a `Src`.
#[derive(Clone)]
pub struct Model {
    pub mods: Vec<Mod>,
    pub gram: Gram,
    /// How each rule is shown in reports and pairs.
    pub names: Vec<String>,
    /// Rules that exist as types: (module, rule of its file, number).
    pub rules: Vec<(usize, usize, usize)>,
    /// Per case: rule to run, and the body as written for the accessors.
    pub entries: Vec<(usize, E)>,
}

const PARAM: &str = "$";
const LABEL: &str = "!";

struct Builder<'a> {
    src: &'a Src,
    mods: Vec<Mod>,
    ids: HashMap<(usize, usize), usize>,
    norm: HashMap<(usize, usize), E>,
    memo: HashMap<(usize, Vec<E>), usize>,
    gram: Gram,
}

/// The rule or module a built-in path names.
fn builtin(path: &[String], args: &Option<Vec<E>>) -> Option<E> {
    let p: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
    Some(match (&p[..], args) {
        (["pest", "any"], None) => E::Any,
        (["pest", "soi"], None) => E::Soi,
        (["pest", "eoi"], None) => E::Eoi,
        (["pest", "newline"], None) => E::Nl,
        (["pest", "stack", "peek"], None) => E::Peek,
        (["pest", "stack", "peek_all"], None) => E::PeekAll,
        (["pest", "stack", "pop"], None) => E::Pop,
        (["pest", "stack", "pop_all"], None) => E::PopAll,
        (["pest", "stack", "drop"], None) => E::Drop,
        (["pest", "stack", "push"], Some(a)) if a.len() == 1 => E::push(a[0].clone()),
        (["pest", n], None) if n.starts_with("ascii") => E::Cls(leak(n)),
        (["pest", "unicode", n], None) => E::Cls(leak(&format!("unicode::{n}"))),
        _ => return None,
    })
}
/// A string that lives on.
pub fn leak(s: &str) -> &'static str {
    use std::sync::Mutex;
    static T: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());
    let mut t = T.lock().unwrap();
    if let Some(x) = t.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(s.into(), l);
    l
}

fn param(n: &str) -> E {
    E::Nm(vec![PARAM.into(), n.into()], None)
}
fn map(e: &E, f: &mut dyn FnMut(&E) -> E) -> E {
    let b = |e: &E, f: &mut dyn FnMut(&E) -> E| Box::new(f(e));
    match e {
        E::Push(x) => E::Push(b(x, f)),
        E::Opt(x) => E::Opt(b(x, f)),
        E::Pos(x) => E::Pos(b(x, f)),
        E::Neg(x) => E::Neg(b(x, f)),
        E::Rep(x, t, lo, hi) => E::Rep(b(x, f), *t, *lo, *hi),
        E::Seq(v) => E::Seq(v.iter().map(|(t, x)| (*t, f(x))).collect()),
        E::Cho(v) => E::Cho(v.iter().map(|x| f(x)).collect()),
        E::Nm(p, Some(v)) => E::Nm(p.clone(), Some(v.iter().map(|x| f(x)).collect())),
        x => x.clone(),
    }
}
/// Replace parameters, all at once.
fn subst(e: &E, env: &HashMap<String, E>) -> E {
    match e {
        E::Nm(p, None) if p[0] == PARAM => env.get(&p[1]).cloned().unwrap_or_else(|| e.clone()),
        e => map(e, &mut |x| subst(x, env)),
    }
}
/// Sequences and choices associate to the right: nested in last position is the same as flat.
fn flat(e: &E) -> E {
    match map(e, &mut flat) {
        E::Seq(mut v) => {
            if let Some((t, E::Seq(w))) = v.last().cloned() {
                v.pop();
                let mut w = w.into_iter();
                v.push((t, w.next().unwrap().1));
                v.extend(w);
            }
            E::Seq(v)
        }
        E::Cho(mut v) => {
            if let Some(E::Cho(w)) = v.last().cloned() {
                v.pop();
                v.extend(w);
            }
            E::Cho(v)
        }
        e => e,
    }
}

impl<'a> Builder<'a> {
    fn file(&self, m: usize) -> &'a FileS {
        &self.src.files[self.mods[m].file]
    }
    fn add_mod(&mut self, file: usize, path: Vec<String>) -> usize {
        let m = self.mods.len();
        self.mods.push(Mod { file, path: path.clone(), subs: vec![] });
        for (r, rule) in self.file(m).rules.iter().enumerate() {
            if rule.silent && !rule.params.is_empty() {
                continue;
            }
            let id = self.gram.rules.len();
            let mut name = rule.name.clone();
            for p in path.iter().rev() {
                name = format!("{p}({name})");
            }
            self.gram.rules.push(Rule { name, body: None, silent: rule.silent, base: None });
            self.ids.insert((m, r), id);
        }
        for i in &self.src.files[file].imps {
            if let Imp::File { name, to, .. } = i {
                let mut p = path.clone();
                p.push(name.clone());
                let s = self.add_mod(*to, p);
                self.mods[m].subs.push((name.clone(), s));
            }
        }
        m
    }
    /// The rule (module instance, index) a path names.
    fn find(&self, m: usize, path: &[String]) -> Option<(usize, usize)> {
        if path.len() == 1 {
            return self.file(m).rules.iter().position(|r| r.name == path[0]).map(|r| (m, r));
        }
        let (_, s) = self.mods[m].subs.iter().find(|s| s.0 == path[0])?;
        self.find(*s, &path[1..])
    }
    /// Resolve names and expand silent rules with arguments.
    fn expand(&mut self, m: usize, params: &[String], e: &E) -> E {
        match e {
            E::Nm(p, None) if p.len() == 1 && params.contains(&p[0]) => param(&p[0]),
            E::Nm(p, args) => {
                let args: Option<Vec<E>> = args.as_ref().map(|a| a.iter().map(|x| self.expand(m, params, x)).collect());
                if p[0] == "pest" {
                    return builtin(p, &args).unwrap_or_else(|| panic!("no built-in {p:?}"));
                }
                for i in &self.file(m).imps {
                    if let Imp::Builtin { path, alias } = i {
                        if *alias == p[0] {
                            let full: Vec<String> = path.iter().chain(&p[1..]).cloned().collect();
                            let b = builtin(&full, &args).unwrap_or_else(|| panic!("no built-in {full:?}"));
                            return E::Nm(vec![LABEL.into(), p.last().unwrap().clone()], Some(vec![b]));
                        }
                    }
                }
                let (m2, r) = self.find(m, p).unwrap_or_else(|| panic!("name {p:?} in module {m}"));
                let rule = &self.file(m2).rules[r];
                let args = args.unwrap_or_default();
                assert_eq!(rule.params.len(), args.len(), "{p:?}");
                if rule.silent && !args.is_empty() {
                    let body = self.expand(m2, &rule.params, &rule.body);
                    return subst(&body, &rule.params.iter().cloned().zip(args).collect());
                }
                E::Nm(vec![format!("#{m2}"), rule.name.clone()], Some(args))
            }
            E::Seq(v) => E::Seq(v.iter().map(|(t, x)| (tv(*t, m), self.expand(m, params, x))).collect()),
            E::Rep(x, t, lo, hi) => E::Rep(Box::new(self.expand(m, params, x)), tv(*t, m), *lo, *hi),
            e => map(e, &mut |x| self.expand(m, params, x)),
        }
    }
    fn norm(&mut self, m: usize, r: usize) -> E {
        if let Some(e) = self.norm.get(&(m, r)) {
            return e.clone();
        }
        let rule = &self.file(m).rules[r];
        let e = self.expand(m, &rule.params, &rule.body);
        let e = flat(&e);
        self.norm.insert((m, r), e.clone());
        e
    }
    fn inst(&mut self, e: &E, env: &HashMap<String, E>) -> E {
        match e {
            E::Nm(p, a) if p[0] == PARAM => {
                assert!(a.is_none());
                env[&p[1]].clone()
            }
            E::Nm(p, Some(a)) if p[0] == LABEL => self.inst(&a[0], env),
            E::Nm(p, a) => {
                let args: Vec<E> = a.iter().flatten().map(|x| self.inst(x, env)).collect();
                let m: usize = p[0][1..].parse().unwrap();
                let r = self.file(m).rules.iter().position(|r| r.name == p[1]).unwrap();
                E::R(self.instance(m, r, args))
            }
            e => map(e, &mut |x| self.inst(x, env)),
        }
    }
    fn instance(&mut self, m: usize, r: usize, args: Vec<E>) -> usize {
        let id = self.ids[&(m, r)];
        if let Some(k) = self.memo.get(&(id, args.clone())) {
            return *k;
        }
        let k = if args.is_empty() {
            id
        } else {
            let Rule { name, silent, .. } = self.gram.rules[id].clone();
            self.gram.rules.push(Rule { name, silent, body: None, base: Some(id) });
            self.gram.rules.len() - 1
        };
        self.memo.insert((id, args.clone()), k);
        let body = self.norm(m, r);
        let env = self.file(m).rules[r].params.iter().cloned().zip(args).collect();
        let body = self.inst(&body, &env);
        self.gram.rules[k].body = Some(body);
        k
    }
}
fn tv(t: Tv, m: usize) -> Tv {
    match t {
        Tv::No => Tv::No,
        Tv::Opt(_) => Tv::Opt(m as u8),
        Tv::Man(_) => Tv::Man(m as u8),
    }
}

impl Src {
    pub fn model(&self) -> Model {
        let mut b = Builder { src: self, mods: vec![], ids: HashMap::new(), norm: HashMap::new(), memo: HashMap::new(), gram: Gram::default() };
        b.add_mod(0, vec![]);
        let nbase = b.gram.rules.len();
        let mut rules = vec![];
        for m in 0..b.mods.len() {
            for r in 0..b.file(m).rules.len() {
                if let Some(id) = b.ids.get(&(m, r)) {
                    rules.push((m, r, *id));
                }
            }
        }
        let none = HashMap::new();
        for m in 0..b.mods.len() {
            let f = b.file(m);
            let mut t = vec![];
            for e in [&f.opt, &f.man] {
                t.push(e.as_ref().map(|e| {
                    let e = b.expand(m, &[], e);
                    b.inst(&flat(&e), &none)
                }));
            }
            let man = t.pop().unwrap();
            b.gram.triv.push((t.pop().unwrap(), man));
        }
        let mut entries = vec![];
        for c in &self.cases {
            let path = |s: &String| s.split("::").map(String::from).collect::<Vec<_>>();
            let (m, r) = b.find(0, &path(&c.entry)).unwrap_or_else(|| panic!("entry {}", c.entry));
            let mut args = vec![];
            for a in &c.args {
                let (m, r) = b.find(0, &path(a)).unwrap_or_else(|| panic!("argument {a}"));
                args.push(E::R(b.instance(m, r, vec![])));
            }
            let k = b.instance(m, r, args);
            entries.push((k, b.norm(m, r)));
        }
        let names = (0..b.gram.rules.len()).map(|i| b.gram.rules[i].name.clone()).collect();
        let _ = nbase;
        Model { mods: b.mods, gram: b.gram, names, rules, entries }
    }
    /// Rust path of a rule given by path from the root.
    pub fn rust(&self, path: &str) -> String {
        let mut o = String::new();
        let p: Vec<&str> = path.split("::").collect();
        for m in &p[..p.len() - 1] {
            o.push_str(&format!("{}::{}::", self.rules_mod, raw(m)));
        }
        format!("{o}{}::{}", self.rules_mod, raw(p[p.len() - 1]))
    }
    /// Names of all generics used: widths of sequences and choices.
    pub fn widths(&self, m: &Model) -> (Vec<usize>, Vec<usize>) {
        let (mut s, mut c) = (vec![], vec![]);
        let mut add = |e: &E| {
            e.visit(&mut |e| match e {
                E::Seq(v) => s.push(v.len()),
                E::Cho(v) => c.push(v.len()),
                _ => (),
            })
        };
        for r in &m.gram.rules {
            if let Some(b) = &r.body {
                add(b)
            }
        }
        for (a, b) in &m.gram.triv {
            a.iter().chain(b).for_each(&mut add);
        }
        s.sort();
        s.dedup();
        c.sort();
        c.dedup();
        (s, c)
    }
}
pub fn raw(s: &str) -> String {
    format!("r#{s}")
}

/// What an accessor returns.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum A {
    Absent,
    Node(V),
    Opt(Option<Box<A>>),
    Vec(Vec<A>),
    Tuple(Vec<A>),
}

type Acc = BTreeMap<String, A>;

fn leaf_name(e: &E) -> Option<String> {
    Some(match e {
        E::Any => "any",
        E::Soi => "soi",
        E::Eoi => "eoi",
        E::Nl => "newline",
        E::Cls(n) => n.rsplit("::").next().unwrap(),
        E::Peek | E::Sl(..) => "peek",
        E::PeekAll => "peek_all",
        E::Pop => "pop",
        E::PopAll => "pop_all",
        E::Drop => "drop",
        E::Push(_) => "push",
        E::Nm(p, _) => p.last().unwrap(),
        _ => return None,
    }
    .to_string())
}
fn acc_names(e: &E, out: &mut Vec<String>) {
    if let Some(n) = leaf_name(e) {
        out.push(n);
        return;
    }
    match e {
        E::Seq(v) => v.iter().for_each(|x| acc_names(&x.1, out)),
        E::Cho(v) => v.iter().for_each(|x| acc_names(x, out)),
        E::Opt(x) | E::Pos(x) | E::Rep(x, ..) => acc_names(x, out),
        _ => (),
    }
}
fn join(parts: Vec<Acc>) -> Acc {
    let mut all: BTreeMap<String, Vec<A>> = BTreeMap::new();
    for p in parts {
        for (k, v) in p {
            all.entry(k).or_default().push(v);
        }
    }
    all.into_iter().map(|(k, mut v)| if v.len() == 1 { (k, v.pop().unwrap()) } else { (k, A::Tuple(v)) }).collect()
}
fn some(m: Acc) -> Acc {
    // An optional inside an optional is one optional.
    m.into_iter().map(|(k, v)| (k, if matches!(v, A::Opt(_)) { v } else { A::Opt(Some(Box::new(v))) })).collect()
}
fn absent(e: &E) -> Acc {
    let mut n = vec![];
    acc_names(e, &mut n);
    n.into_iter().map(|k| (k, A::Opt(None))).collect()
}
/// What the accessors of a rule with body `e` return on a node whose content is `v`.
/// Written from the documented meaning; `None` if the tree does not have the shape of the body.
pub fn accessors(e: &E, v: &V) -> Option<Acc> {
    if let Some(n) = leaf_name(e) {
        return Some([(n, A::Node(v.clone()))].into());
    }
    Some(match (e, v) {
        (E::Seq(es), V::L(vs)) if es.len() == vs.len() => {
            let mut p = vec![];
            for (e, v) in es.iter().zip(vs) {
                p.push(accessors(&e.1, v)?);
            }
            join(p)
        }
        (E::Cho(es), V::Alt(i, v)) => {
            let mut p = vec![];
            for (k, e) in es.iter().enumerate() {
                p.push(if k == *i as usize { some(accessors(e, v)?) } else { absent(e) });
            }
            join(p)
        }
        (E::Opt(e), V::N) => absent(e),
        (E::Opt(e), V::S(v)) => some(accessors(e, v)?),
        (E::Rep(e, ..), V::Rep(vs)) => {
            let mut names = vec![];
            acc_names(e, &mut names);
            let mut m: Acc = names.into_iter().map(|n| (n, A::Vec(vec![]))).collect();
            for v in vs {
                for (k, a) in accessors(e, v)? {
                    match m.get_mut(&k) {
                        Some(A::Vec(x)) => x.push(a),
                        _ => return None,
                    }
                }
            }
            m
        }
        (E::Pos(e), V::Pos(v)) => accessors(e, v)?,
        (E::Neg(_), V::Neg) => Acc::new(),
        (E::Str(_) | E::Ins(_) | E::Rng(..) | E::Empty | E::Fail, _) => Acc::new(),
        _ => return None,
    })
}
