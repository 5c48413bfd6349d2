//! The families of derived grammars, per property.
use crate::src::*;
use std::sync::Arc;
use vref::expr::{Tv, E};
use vref::gen::{levels, Alpha, Bi, Un};
use vref::par::strings;

pub struct Space {
    pub name: String,
    /// With their numbers.
    pub grams: Vec<(usize, Src)>,
}

/// Does class `n` contain `c`?
pub fn class(n: &str, c: char) -> bool {
    match n {
        "ascii_digit" => c.is_ascii_digit(),
        "ascii_nonzero_digit" => matches!(c, '1'..='9'),
        "ascii_bin_digit" => matches!(c, '0' | '1'),
        "ascii_oct_digit" => c.is_digit(8) && c.is_ascii(),
        "ascii_hex_digit" => c.is_ascii_hexdigit(),
        "ascii_alpha_lower" => c.is_ascii_lowercase(),
        "ascii_alpha_upper" => c.is_ascii_uppercase(),
        "ascii_alpha" => c.is_ascii_alphabetic(),
        "ascii_alphanumeric" => c.is_ascii_alphanumeric(),
        "ascii" => c.is_ascii(),
        n => {
            let u = n.strip_prefix("unicode::").unwrap_or_else(|| panic!("class {n}"));
            prop(u)(c)
        }
    }
}
fn prop(u: &str) -> Arc<dyn Fn(char) -> bool> {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        static T: RefCell<HashMap<String, Arc<dyn Fn(char) -> bool>>> = RefCell::new(HashMap::new());
    }
    T.with(|t| {
        t.borrow_mut()
            .entry(u.to_string())
            .or_insert_with(|| Arc::from(pest2::unicode::by_name(&u.to_ascii_uppercase()).unwrap_or_else(|| panic!("property {u}"))))
            .clone()
    })
}

const O: Tv = Tv::Opt(0);
const M: Tv = Tv::Man(0);
const N: Tv = Tv::No;

fn un(f: impl Fn(E) -> E + Sync + Send + 'static) -> Un {
    Box::new(f)
}
fn bi(f: impl Fn(E, E) -> E + Sync + Send + 'static) -> Bi {
    Box::new(f)
}
fn seq(t: Tv) -> Bi {
    bi(move |a, b| E::seq2(a, t, b))
}
fn cho() -> Bi {
    bi(|a, b| E::cho(vec![a, b]))
}
fn rep(t: Tv, lo: usize, hi: Option<usize>) -> Un {
    un(move |e| E::rep(e, t, lo, hi))
}
fn all(a: &Alpha, max: usize) -> Vec<E> {
    levels(a, max).into_iter().flatten().collect()
}
fn ins(a: &[char], n: usize) -> Arc<Vec<String>> {
    Arc::new(strings(a, n))
}
fn s(x: &str) -> E {
    E::s(x)
}
fn nm(x: &str) -> E {
    E::nm(x)
}

pub struct B {
    spaces: Vec<Space>,
    next: usize,
}
impl B {
    fn add(&mut self, name: impl Into<String>, srcs: Vec<Src>) {
        let grams = srcs
            .into_iter()
            .map(|mut x| {
                let g = self.next;
                self.next += 1;
                if x.group == 0 {
                    x.group = g;
                }
                (g, x)
            })
            .collect();
        self.spaces.push(Space { name: name.into(), grams });
    }
    /// One rule per expression, `per` of them in one grammar together with what `host` defines.
    fn exprs(&mut self, name: &str, exprs: Vec<E>, per: usize, host: &Src, inputs: &Arc<Vec<String>>) {
        let name = format!("{name}: {} rules x {} inputs", exprs.len(), inputs.len());
        let mut v = vec![];
        for ch in exprs.chunks(per) {
            let mut h = host.clone();
            for (i, e) in ch.iter().enumerate() {
                h.files[0].rules.push(rule(&format!("r{i}"), e.clone()));
                h.cases.push(case(&format!("r{i}"), inputs));
            }
            v.push(h);
        }
        self.add(name, v);
    }
}

fn host(rules: Vec<RuleS>) -> Src {
    one(FileS { rules, ..FileS::default() })
}
fn host_t(rules: Vec<RuleS>, opt: Option<E>, man: Option<E>) -> Src {
    one(FileS { rules, opt, man, triv_at: 1, ..FileS::default() })
}

/// Rules, silent rules, generic rules, trivia, stack.
fn mixed() -> (Src, Alpha) {
    let h = host_t(
        vec![
            rule("ha", s("a")),
            silent("hs", E::cho(vec![s("b"), nm("ha")])),
            meta("hg", &["x"], E::seq2(nm("x"), N, E::opt(nm("ha")))),
            smeta("hm", &["x"], E::cho(vec![E::seq2(nm("x"), O, nm("x")), s("b")])),
        ],
        Some(E::rep(s(" "), N, 0, None)),
        None,
    );
    let a = Alpha {
        leaves: vec![s("a"), s("b"), nm("ha"), nm("hs"), E::Any, E::Peek, E::Pop],
        un: vec![
            un(E::opt),
            rep(N, 0, None),
            rep(O, 1, None),
            rep(N, 1, Some(2)),
            un(E::pos),
            un(E::neg),
            un(E::push),
            un(|e| E::call("hg", vec![e])),
            un(|e| E::call("hm", vec![e])),
        ],
        bi: vec![seq(N), seq(O), cho()],
    };
    (h, a)
}
fn language() -> (Src, Alpha) {
    let h = host(vec![rule("ha", E::cho(vec![s("a"), E::seq2(s("b"), N, s("a"))]))]);
    let a = Alpha {
        leaves: vec![s("a"), s("b"), s("ab"), s(""), E::Rng('a', 'b'), E::Any, nm("ha"), E::Eoi, E::Ins("B".into())],
        un: vec![
            un(E::opt),
            rep(N, 0, None),
            rep(N, 1, None),
            rep(N, 2, Some(2)),
            rep(N, 1, Some(2)),
            rep(N, 0, Some(2)),
            rep(N, 2, None),
            un(E::pos),
            un(E::neg),
        ],
        bi: vec![seq(N), cho()],
    };
    (h, a)
}
fn stack() -> Alpha {
    Alpha {
        leaves: vec![
            s("a"),
            E::Any,
            E::Peek,
            E::PeekAll,
            E::Pop,
            E::PopAll,
            E::Drop,
            E::Sl(0, Some(1)),
            E::Sl(-1, None),
            E::Sl(1, Some(-1)),
            E::Sl(0, Some(3)),
        ],
        un: vec![un(E::opt), rep(N, 0, None), rep(N, 2, Some(2)), un(E::pos), un(E::neg), un(E::push)],
        bi: vec![seq(N), cho()],
    }
}


/// Two files: `m` has its own trivia and rules of the same names as the root.
fn module_m(path: &str) -> FileS {
    FileS {
        path: path.into(),
        rules: vec![
            rule("ha", E::seq2(s("a"), O, s("b"))),
            silent("hs", s("b")),
            meta("hg", &["x"], E::seq2(nm("x"), O, nm("x"))),
            smeta("hm", &["x"], E::cho(vec![nm("x"), nm("hs")])),
        ],
        opt: Some(E::rep(s("_"), N, 0, None)),
        triv_at: 9,
        ..FileS::default()
    }
}
fn imported() -> (Src, Alpha) {
    let mut h = host_t(vec![rule("ha", s("a")), silent("hs", s("b"))], Some(E::rep(s(" "), N, 0, None)), None);
    h.layout = Layout::File;
    h.files[0].imps = vec![Imp::file("m", 1), Imp::file("m as k", 1)];
    h.files.push(module_m("m.pest"));
    let a = Alpha {
        leaves: vec![s("a"), nm("ha"), nm("hs"), nm("m::ha"), nm("m::hs"), nm("k::ha")],
        un: vec![
            un(E::opt),
            rep(O, 0, None),
            un(E::neg),
            un(E::pos),
            un(|e| E::call("m::hg", vec![e])),
            un(|e| E::call("k::hm", vec![e])),
        ],
        bi: vec![seq(N), seq(O), cho()],
    };
    (h, a)
}

/// Rules referring to rules, for reports.
fn reports() -> (Src, Alpha) {
    let h = host_t(
        vec![
            rule("ha", s("a")),
            rule("hb", s("b")),
            silent("hs", E::cho(vec![nm("hb"), s("\n")])),
            rule("hn", E::seq2(nm("ha"), N, E::opt(nm("hb")))),
            meta("hg", &["x"], E::seq2(nm("ha"), N, nm("x"))),
        ],
        Some(nm("hs")),
        None,
    );
    let a = Alpha {
        leaves: vec![s("a"), nm("ha"), nm("hb"), nm("hs"), nm("hn"), E::Pop, E::Sl(0, Some(2)), E::Eoi],
        un: vec![un(E::opt), rep(N, 0, None), rep(N, 2, None), un(E::pos), un(E::neg), un(E::push), un(|e| E::call("hg", vec![e]))],
        bi: vec![seq(N), seq(O), cho()],
    };
    (h, a)
}

fn acc_host() -> Src {
    let mut h = host(vec![
        rule("a", s("a")),
        rule("b", s("b")),
        silent("c", E::cho(vec![s("c"), nm("b")])),
        meta("g", &["x"], E::seq2(nm("x"), N, E::opt(nm("b")))),
        smeta("h", &["x"], E::seq2(nm("x"), N, E::opt(nm("x")))),
    ]);
    h.acc = true;
    h.names = ["a", "b", "c", "g", "h", "x", "y", "any", "push", "peek", "content", "m"].iter().map(|s| s.to_string()).collect();
    h
}
fn tuples(items: &[E], n: usize) -> Vec<Vec<E>> {
    let mut v: Vec<Vec<E>> = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|t| items.iter().map(move |i| [t.clone(), vec![i.clone()]].concat())).collect();
    }
    v
}

fn c07(b: &mut B, deep: bool) {
    let h = acc_host();
    let abc = ins(&['a', 'b', 'c'], 3);
    let ab5 = ins(&['a', 'b'], 5);
    let a = Alpha {
        leaves: vec![nm("a"), nm("b"), s("a"), E::Any, nm("c")],
        un: vec![
            un(E::opt),
            rep(N, 0, None),
            un(E::pos),
            un(E::neg),
            un(E::push),
            un(|e| E::call("g", vec![e])),
            un(|e| E::call("h", vec![e])),
        ],
        bi: vec![seq(N), cho()],
    };
    b.exprs("accessors of rules up to size", all(&a, if deep { 4 } else { 3 }), 40, &h, &abc);
    // Deep nesting of few operators.
    let a = Alpha {
        leaves: vec![nm("a"), s("b")],
        un: vec![un(E::opt), rep(N, 1, Some(2))],
        bi: vec![seq(N), cho()],
    };
    b.exprs("nested accessors", all(&a, if deep { 7 } else { 5 }), 40, &h, &ab5);
    let items = [nm("a"), nm("b"), E::opt(nm("a")), E::rep(nm("a"), N, 0, Some(2)), E::cho(vec![nm("b"), nm("a")])];
    let mut v = vec![];
    for n in 3..=4 {
        for t in tuples(&items, n) {
            v.push(E::seq(t.clone()));
            if n == 3 {
                v.push(E::cho(t.iter().enumerate().map(|(i, e)| E::seq(vec![E::rep(s("b"), N, i + 1, Some(i + 1)), e.clone()])).collect()));
                v.push(E::seq(vec![t[0].clone(), E::opt(E::seq(vec![t[1].clone(), t[2].clone()]))]));
                v.push(E::seq(vec![E::seq(vec![t[0].clone(), t[1].clone()]), t[2].clone()]));
            }
        }
    }
    b.exprs("accessors of rules with many mentions", v, 40, &h, &ab5);
    // Parameters.
    let a = Alpha {
        leaves: vec![nm("x"), nm("y"), nm("a")],
        un: vec![un(E::opt), rep(N, 0, Some(2)), un(E::pos), un(E::neg), un(|e| E::call("g", vec![e]))],
        bi: vec![seq(N), cho()],
    };
    let mut srcs = vec![];
    for ch in all(&a, if deep { 4 } else { 3 }).chunks(40) {
        let mut h = h.clone();
        for (i, e) in ch.iter().enumerate() {
            let mut used = vec![];
            e.visit(&mut |e| {
                if let E::Nm(p, None) = e {
                    if p[0] == "x" || p[0] == "y" {
                        used.push(p[0].as_str());
                    }
                }
            });
            used.sort();
            used.dedup();
            h.files[0].rules.push(meta(&format!("r{i}"), &used, e.clone()));
            let args = used.iter().map(|u| if *u == "x" { "b" } else { "c" }.to_string()).collect();
            h.cases.push(Case { entry: format!("r{i}"), args, inputs: abc.clone() });
        }
        srcs.push(h);
    }
    b.add("accessors of parameters", srcs);
    // Imported rules of the same name, and built-ins under another name.
    let mut h = acc_host();
    h.layout = Layout::File;
    h.files[0].imps = vec![
        Imp::file("m", 1),
        Imp::Builtin { path: vec!["pest".into(), "any".into()], alias: "y".into() },
        Imp::Builtin { path: vec!["pest".into(), "stack".into()], alias: "st".into() },
    ];
    h.files.push(FileS {
        path: "m.pest".into(),
        rules: vec![rule("a", E::cho(vec![s("b"), s("c")])), meta("g", &["x"], E::seq2(nm("x"), N, nm("a")))],
        ..FileS::default()
    });
    let a = Alpha {
        leaves: vec![nm("a"), nm("m::a"), nm("y"), s("a")],
        un: vec![un(E::opt), rep(N, 0, Some(2)), un(|e| E::call("m::g", vec![e])), un(|e| E::call("st::push", vec![e]))],
        bi: vec![seq(N), cho()],
    };
    b.exprs("accessors of imported rules", all(&a, if deep { 4 } else { 3 }), 40, &h, &abc);
    // Unicode properties by path and under other names, and rules named like them.
    let mut h = acc_host();
    let as_ = |p: &str, alias: &str| Imp::Builtin { path: p.split("::").map(str::to_string).collect(), alias: alias.into() };
    h.files[0].imps = vec![
        as_("pest::unicode", "u"),
        as_("pest::unicode::alphabetic", "q"),
        as_("pest::unicode::decimal_number", "digit"),
        as_("pest::stack::peek", "again"),
        as_("pest::ascii_alpha_lower", "low"),
    ];
    h.files[0].rules.push(rule("alphabetic", s("1")));
    h.files[0].rules.push(silent("decimal_number", s("2")));
    for n in ["alphabetic", "decimal_number", "uppercase", "q", "digit", "again", "low", "ascii_alpha_lower"] {
        h.names.push(n.into());
    }
    let a = Alpha {
        leaves: vec![nm("q"), nm("alphabetic"), nm("digit"), nm("decimal_number"), nm("u::uppercase"), nm("u::alphabetic"), nm("again"), nm("low")],
        un: vec![un(E::opt), rep(N, 0, Some(2)), un(E::push)],
        bi: vec![seq(N), cho()],
    };
    b.exprs("accessors of Unicode properties", all(&a, if deep { 4 } else { 3 }), 40, &h, &ins(&['a', 'A', '1', '2'], 3));
    // Wide sequences and choices: what is mentioned at two or three of their places.
    let mut v = vec![];
    for n in [5usize, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 20] {
        let mut at: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
        at.extend((0..n / 2).map(|i| vec![i, n - 1 - i]));
        at.extend([vec![0, 1, n - 1], vec![0, n - 2, n - 1], (0..n).step_by(2).collect()]);
        for at in at {
            if at.len() < 9 {
                let parts = (0..n).map(|i| match at.iter().position(|k| *k == i) {
                    None => s(&char::from(b'c' + i as u8 % 8).to_string()),
                    Some(0) => nm("a"),
                    Some(1) => E::opt(nm("a")),
                    Some(_) => E::rep(nm("a"), N, 0, Some(2)),
                });
                v.push(E::seq(parts.collect()));
            }
            if at.len() < 9 || n < 9 {
                // The same text before each so that every alternative can be reached.
                let alts = (0..n).map(|i| match at.iter().position(|k| *k == i) {
                    None => s(&char::from(b'c' + i as u8).to_string()),
                    Some(0) => nm("a"),
                    Some(_) => E::seq2(s(&char::from(b'c' + i as u8).to_string()), N, nm("a")),
                });
                v.push(E::cho(alts.collect()));
            }
        }
    }
    let mut inputs = vec![];
    for n in [5usize, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 20] {
        let c = |i: usize| char::from(b'c' + i as u8 % 8).to_string();
        for i in 0..n {
            inputs.push((0..n).map(|k| if k == i { "a".into() } else { c(k) }).collect::<String>());
            inputs.push((0..n).map(|k| if k == i || k == n - 1 - i { "a".into() } else { c(k) }).collect());
            inputs.push((0..n).filter(|k| *k != n - 1 - i || i >= n / 2).map(|k| if k == i { "a".into() } else { c(k) }).collect());
            inputs.push(char::from(b'c' + i as u8).to_string());
            inputs.push(format!("{}a", char::from(b'c' + i as u8)));
        }
        for odd in ["", "a", "aa"] {
            inputs.push((0..n).map(|k| if k == 0 || k == n - 2 { "a".into() } else if k == n - 1 { odd.to_string() } else { c(k) }).collect());
            inputs.push((0..n).map(|k| if k == 0 || k == 1 { "a".into() } else if k == n - 1 { odd.to_string() } else { c(k) }).collect());
            inputs.push((0..n).map(|k| if k == 0 { "a".into() } else if k == 2 { odd.to_string() } else if k > 2 && k % 2 == 0 { "a".into() } else { c(k) }).collect());
        }
    }
    inputs.push("a".into());
    inputs.sort();
    inputs.dedup();
    b.exprs("accessors of wide sequences and choices", v, 30, &h, &Arc::new(inputs));
    // A mention within an option or a repetition that is part of a wide sequence or choice which is itself optional or repeated.
    let mut v = vec![];
    let mut inputs: Vec<String> = vec![];
    for n in [3usize, 5, 7, 12, 13, 16] {
        let lit = |i: usize| char::from(b'c' + i as u8).to_string();
        for at in 0..n {
            let q = |inner: E| E::seq((0..n).map(|i| if i == at { inner.clone() } else { s(&lit(i)) }).collect());
            let ch = |inner: E| E::cho((0..n).map(|i| if i == at { E::seq2(s(&lit(i)), N, inner.clone()) } else { s(&lit(i)) }).collect());
            let oa = || E::opt(nm("a"));
            let some = |e: E| E::rep(e, N, 0, Some(2));
            v.extend([
                E::opt(q(oa())),
                E::opt(q(nm("a"))),
                some(q(oa())),
                E::opt(q(some(nm("a")))),
                E::opt(q(E::cho(vec![nm("a"), s("b")]))),
                E::cho(vec![q(oa()), s("b")]),
                E::opt(ch(oa())),
                some(ch(some(oa()))),
            ]);
            for a in ["", "a", "aa", "b"] {
                let t: String = (0..n).map(|i| if i == at { a.to_string() } else { lit(i) }).collect();
                inputs.push(format!("{t}{t}"));
                inputs.push(t);
                inputs.push(format!("{}{a}{}{a}", lit(at), lit(at)));
            }
        }
    }
    inputs.sort();
    inputs.dedup();
    b.exprs("accessors of what is optional in wide parts that are", v, 30, &h, &Arc::new(inputs));
    // Boxing does not matter to accessors.
    for attrs in ["#[box_rules_only_if_needed]"] {
        let mut h = acc_host();
        h.attrs = attrs.into();
        let v: Vec<E> = all(&Alpha { leaves: vec![nm("a"), nm("b")], un: vec![un(E::opt), rep(N, 0, None)], bi: vec![seq(N), cho()] }, 4);
        b.exprs("accessors of unboxed rules", v, 40, &h, &ins(&['a', 'b'], 4));
    }
}

fn c14(b: &mut B, deep: bool) {
    let bar = || E::rep(s(" "), N, 0, None);
    let trivia: Vec<(&str, E, E)> = vec![
        ("one space; dash", s(" "), s("-")),
        ("spaces; dashes", bar(), E::rep(s("-"), N, 1, None)),
        ("optional space or dash; a letter", E::opt(E::cho(vec![s(" "), s("-")])), s("a")),
        ("a rule; a rule", nm("hw"), nm("hd")),
        ("nothing; predicate", s(""), E::seq2(E::neg(s("b")), N, E::opt(s("-")))),
        ("pushed; popped", E::push(E::opt(s(" "))), E::cho(vec![E::Pop, s("-")])),
    ];
    let a = Alpha {
        leaves: vec![s("a"), s("b"), nm("hr")],
        un: vec![
            un(E::opt),
            rep(N, 0, None),
            rep(O, 0, None),
            rep(M, 0, None),
            rep(O, 1, None),
            rep(M, 2, None),
            rep(O, 1, Some(2)),
            rep(M, 2, Some(2)),
            un(E::pos),
            un(E::neg),
        ],
        bi: vec![seq(N), seq(O), seq(M), cho()],
    };
    let inputs = ins(&['a', 'b', ' ', '-'], if deep { 5 } else { 4 });
    for (i, (name, opt, man)) in trivia.into_iter().enumerate() {
        let mut h = host_t(
            vec![rule("hr", E::seq2(s("a"), O, s("b"))), rule("hw", E::rep(s(" "), N, 0, Some(1))), silent("hd", E::cho(vec![s("-"), s("  ")]))],
            Some(opt),
            Some(man),
        );
        h.files[0].triv_at = [0, 1, 9][i % 3];
        b.exprs(&format!("trivia: {name}"), all(&a, if deep && i < 3 { 4 } else { 3 }), 60, &h, &inputs);
    }
    // Sequences of three and four parts, any mixture.
    let mut v = vec![];
    for n in 3..=4 {
        for k in 0..3usize.pow(n as u32 - 1) {
            let t: Vec<Tv> = (0..n - 1).map(|i| [N, O, M][k / 3usize.pow(i as u32) % 3]).collect();
            for parts in tuples(&[s("a"), E::opt(s("b"))], n) {
                v.push(E::Seq(parts.into_iter().enumerate().map(|(i, e)| (if i == 0 { N } else { t[i - 1] }, e)).collect()));
            }
        }
    }
    let h = host_t(vec![rule("hr", s("a"))], Some(bar()), Some(s("-")));
    b.exprs("trivia in longer sequences", v, 60, &h, &ins(&['a', 'b', ' ', '-'], if deep { 6 } else { 5 }));
    // Every kind of repetition with every trivia.
    let mut v = vec![];
    for t in [N, O, M] {
        for lo in 0..=2usize {
            for hi in [None, Some(1), Some(2), Some(3)].into_iter().filter(|h| h.map_or(true, |h| lo <= h)) {
                for inner in [s("a"), nm("hr"), E::cho(vec![s("b"), s("ab")]), E::push(s("a"))] {
                    let r = E::rep(inner, t, lo, hi);
                    v.push(r.clone());
                    v.push(E::seq2(r.clone(), O, s("b")));
                    v.push(E::seq2(s("a"), M, r.clone()));
                    if deep {
                        v.push(E::rep(E::seq2(r.clone(), N, s("b")), O, 0, Some(2)));
                        v.push(E::neg(r));
                    }
                }
            }
        }
    }
    b.exprs("trivia in repetitions", v, 60, &h, &ins(&['a', 'b', ' ', '-'], 5));
    let (v, inputs) = deep_reps();
    b.exprs("trivia in repetitions with large bounds", v, 40, &host_t(vec![rule("hr", s("a"))], Some(bar()), Some(s("-"))), &inputs);
    // Two modules with different trivia.
    let (h, a) = imported();
    b.exprs("trivia of imported modules", all(&a, 3), 60, &h, &ins(&['a', 'b', ' ', '_'], 4));
}

/// Repetitions with large bounds, and texts of up to 20 elements for them.
fn deep_reps() -> (Vec<E>, Arc<Vec<String>>) {
    let mut v = vec![];
    for (lo, hi) in [
        (4, None), (5, None), (7, None), (8, None), (9, None), (10, None), (11, None), (12, None), (13, None), (16, None), (17, None),
        (5, Some(5)), (7, Some(7)), (8, Some(8)), (9, Some(9)), (10, Some(10)), (11, Some(11)), (12, Some(12)), (16, Some(16)), (17, Some(17)),
        (0, Some(5)), (0, Some(9)), (0, Some(10)), (0, Some(16)), (1, Some(12)), (3, Some(10)), (9, Some(11)), (10, Some(12)),
    ] {
        for t in [N, O, M] {
            let r = E::rep(s("a"), t, lo, hi);
            v.push(E::seq2(r.clone(), O, E::opt(s("b"))));
            v.push(E::rep(E::cho(vec![nm("hr"), s("b")]), t, lo, hi));
            v.push(r);
        }
    }
    let mut inputs = vec![];
    for n in 0..=20usize {
        for gap in ["", " ", "-", "  ", "--", "b"] {
            inputs.push(vec!["a"; n].join(gap));
            inputs.push(vec!["a"; n].join(gap) + "b");
            inputs.push(vec!["a"; n].join(gap) + gap + "-b");
            for odd in ["", " ", "-"].iter().filter(|o| **o != gap) {
                for at in 1..n {
                    let parts: Vec<String> = (0..n).map(|i| if i == 0 { "a".into() } else { format!("{}a", if i == at { odd } else { gap }) }).collect();
                    inputs.push(parts.concat());
                }
            }
        }
    }
    inputs.sort();
    inputs.dedup();
    (v, Arc::new(inputs))
}
/// Rules, many of them tried at one place.
fn many_rules() -> (Src, Vec<E>, Arc<Vec<String>>) {
    let n = 22;
    let k = |i: usize| format!("k{}", (b'a' + i as u8) as char);
    let lit = |i: usize| char::from(b'a' + (i % 26) as u8).to_string();
    // In an order that is not the order of names.
    let mut rs: Vec<RuleS> = (0..n).map(|i| rule(&k((i * 5) % n), s(&lit((i * 5) % n)))).collect();
    rs.push(silent("hs", E::cho(vec![s("\n"), nm(&k(3))])));
    rs.push(meta("hg", &["x"], E::seq2(nm("x"), N, E::opt(nm(&k(4))))));
    let h = host(rs);
    let mut v = vec![];
    for n in [2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 22] {
        let up = E::cho((0..n).map(|i| nm(&k(i))).collect());
        let down = E::cho((0..n).rev().map(|i| nm(&k(i))).collect());
        let nots = E::seq((0..n).map(|i| E::neg(nm(&k(i)))).chain([E::Any]).collect());
        let opts = E::seq((0..n).map(|i| E::opt(nm(&k(i)))).chain([E::Eoi]).collect());
        v.extend([up.clone(), E::seq2(E::rep(E::Nl, N, 0, None), N, up.clone()), nots.clone(), opts, E::seq2(E::neg(up.clone()), N, down.clone())]);
        v.push(E::seq2(E::call("hg", vec![up]), N, E::seq2(nm("hs"), N, down)));
    }
    let mut inputs: Vec<String> = vec![String::new()];
    for i in 0..26 {
        inputs.push(lit(i));
        inputs.push(format!("\n{}", lit(i)));
        inputs.push(format!("\n\n{}~", lit(i)));
        inputs.push(format!("{}{}", lit(i), lit((i + 1) % 26)));
        inputs.push(format!("{}e\n{}", lit(i), lit(25 - i)));
        inputs.push("\n".repeat(i * 4) + "?");
    }
    inputs.sort();
    inputs.dedup();
    (h, v, Arc::new(inputs))
}
/// Towers of rules: each rule is little more than the next one.
fn towers(b: &mut B) {
    let mut srcs = vec![];
    for n in [5usize, 8, 12, 20] {
        for at in 0..n {
            for quiet in [false, true] {
                let mut rs = vec![];
                for i in 0..n {
                    let next = if i + 1 == n { E::cho(vec![s("b"), s("c")]) } else { nm(&format!("t{}", i + 1)) };
                    let body = match (i == at, i % 3) {
                        (true, 0) => E::seq2(s("a"), N, next),
                        (true, 1) => E::seq2(next, N, s("a")),
                        (true, _) => E::seq2(E::neg(s("a")), N, next),
                        (false, 0) => next,
                        (false, 1) => E::cho(vec![next, s("\n")]),
                        (false, _) => E::seq2(E::opt(s("\n")), N, next),
                    };
                    let r = rule(&format!("t{i}"), body);
                    rs.push(if quiet && (i + at) % 3 == 1 { RuleS { silent: true, ..r } } else { r });
                }
                let mut h = host(rs);
                let inputs = ins(&['a', 'b', '\n'], 3);
                h.cases = vec![case("t0", &inputs), case("t1", &inputs)];
                srcs.push(h);
            }
        }
    }
    b.add("towers of up to 20 rules", srcs);
}

/// Lengths: small ones, and those around the limits that counters and tables tend to have.
fn lengths(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=34).collect();
    for n in [48usize, 50, 60, 64, 80, 99, 100, 120, 127, 128, 150, 200, 255, 256, 300, 400, 500, 511, 512, 600, 800, 999, 1000, 1023, 1024, 2000, 2048, 4095, 4096, 65535, 65536] {
        v.extend([n - 1, n, n + 1]);
    }
    v.retain(|n| *n <= max);
    v.sort();
    v.dedup();
    v
}
fn texts(v: Vec<String>) -> Arc<Vec<String>> {
    let mut v = v;
    v.sort();
    v.dedup();
    Arc::new(v)
}
/// Long runs, deep nesting, many entries on the stack, many rules, long literals.
fn large(b: &mut B, prop: &str, deep: bool) {
    let runs = || {
        let mut v = vec![];
        for r in [s("a"), nm("hr"), E::cho(vec![nm("hr"), s("b")]), E::seq2(E::neg(s("b")), N, E::Any)] {
            v.push(E::seq2(E::rep(r.clone(), N, 0, None), N, E::opt(s("b"))));
            v.push(E::rep(r.clone(), N, 1, None));
            v.push(E::rep(r.clone(), O, 0, None));
            v.push(E::rep(r.clone(), M, 1, None));
        }
        for k in [64, 100, 127, 128, 255, 256, 257, 300, 1000] {
            for (lo, hi) in [(k, None), (0, Some(k)), (k, Some(k)), (k - 1, Some(k + 1))] {
                v.push(E::seq2(E::rep(nm("hr"), N, lo, hi), N, E::opt(s("b"))));
                v.push(E::rep(s("a"), O, lo, hi));
            }
        }
        // Long runs of what is skipped.
        v.push(E::seq2(nm("hr"), O, E::seq2(nm("hr"), M, E::opt(s("b")))));
        v
    };
    let most = if prop == "C04" { 300 } else if deep { 70_000 } else { 1_100 };
    let run_texts = || {
        let mut v = vec![];
        for n in lengths(if matches!(prop, "C01" | "C05") { 70_000 } else { most }) {
            v.push("a".repeat(n));
            v.push("a".repeat(n) + "b");
        }
        for n in lengths(most.min(4_200)) {
            v.push(vec!["a"; n].join(" "));
            v.push(vec!["a"; n].join("-"));
            v.push("a".to_string() + &" ".repeat(n) + "ab");
            v.push("a".to_string() + &" ".repeat(n) + "a" + &"-".repeat(n) + "b");
        }
        texts(v)
    };
    let nests = || {
        let h = host(vec![
            rule("n1", E::seq(vec![s("("), E::opt(nm("n1")), s(")")])),
            rule("n2", E::cho(vec![E::seq2(s("a"), N, nm("n2")), s("b")])),
            rule("n3", E::cho(vec![E::seq2(s("("), N, E::seq2(nm("n3"), N, s(")"))), E::seq2(s("("), N, E::seq2(nm("n3"), N, s("]"))), nm("n2")])),
            silent("n4", E::seq(vec![s("a"), E::opt(nm("n5")), E::opt(s("b"))])),
            rule("n5", E::cho(vec![nm("n4"), s("c")])),
        ]);
        let v = vec![nm("n1"), nm("n2"), nm("n4"), nm("n5"), E::rep(nm("n1"), N, 0, None), E::seq2(E::neg(nm("n1")), N, nm("n2")), E::seq2(E::pos(nm("n2")), N, E::rep(E::Any, N, 0, None))];
        let mut t = vec![];
        for n in lengths(if deep { 1_100 } else { 530 }) {
            let (o, c, a) = ("(".repeat(n), ")".repeat(n), "a".repeat(n));
            t.extend([format!("{o}{c}"), format!("{o}{c})"), format!("({o}{c}"), format!("{o}{c}{o}{c}"), format!("{a}b"), a.clone(), format!("{a}c{}", "b".repeat(n)), format!("{a}{}", "b".repeat(n + 1))]);
        }
        for n in 0..=12 {
            t.extend([format!("{}b{}", "(".repeat(n), ")".repeat(n)), format!("{}b{}", "(".repeat(n), "]".repeat(n))]);
        }
        (h, v, texts(t))
    };
    let stacks = || {
        let ab = || E::cho(vec![s("a"), s("b")]);
        let many = |e: E| E::rep(e, N, 0, None);
        let mut v = vec![
            E::seq(vec![many(E::push(ab())), s("!"), many(E::Pop), E::Eoi]),
            E::seq(vec![many(E::push(ab())), s("!"), E::PopAll, E::Eoi]),
            E::seq(vec![many(E::push(ab())), s("!"), E::PeekAll, E::opt(E::Drop), E::PeekAll]),
            E::seq(vec![many(E::push(ab())), s("!"), many(E::seq2(E::Drop, N, E::opt(E::Peek))), E::PeekAll]),
            E::seq(vec![many(E::push(ab())), s("!"), E::cho(vec![E::seq2(E::PopAll, N, s("!")), E::PeekAll]), E::opt(E::Pop)]),
            E::seq(vec![many(E::cho(vec![E::seq2(E::push(ab()), N, s("!")), E::push(ab())])), E::opt(E::PopAll)]),
        ];
        for (x, y) in [(0, None), (1, None), (-1, None), (0, Some(10)), (0, Some(-10)), (-10, None), (9, Some(11)), (10, Some(100)), (-100, Some(-98)), (127, Some(129)), (255, None), (-257, Some(-255))] {
            v.push(E::seq(vec![many(E::push(ab())), s("!"), E::Sl(x, y), E::opt(E::Pop)]));
        }
        let mut t = vec![];
        for n in lengths(if deep { 1_100 } else { 300 }) {
            for unit in ["a", "ab", "aab"] {
                let x: String = unit.chars().cycle().take(n).collect();
                let y: String = x.chars().rev().collect();
                t.extend([format!("{x}!{x}"), format!("{x}!{y}"), format!("{x}!{y}{y}"), format!("{x}!{}", &y[..n.saturating_sub(1)]), format!("{x}!a"), format!("{x}!b"), format!("{x}!")]);
                for k in [1usize, 2, 10, 90, 100] {
                    t.push(format!("{x}!{}", x.chars().take(k).collect::<String>()));
                    t.push(format!("{x}!{}", x.chars().skip(n.saturating_sub(k)).collect::<String>()));
                }
            }
        }
        (v, texts(t))
    };
    let literals = || {
        let (mut v, mut t) = (vec![], vec![]);
        for n in [31usize, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1025] {
            let x: String = "aBc1éd-".chars().cycle().take(n).collect();
            v.extend([E::Str(x.clone().into()), E::Ins(x.clone().into()), E::seq2(E::opt(E::Ins(x.clone().into())), N, s("!"))]);
            let c: Vec<char> = x.chars().collect();
            t.extend([x.clone(), x.clone() + "!", x.to_ascii_uppercase(), x.to_ascii_lowercase() + "!"]);
            for i in (0..n).filter(|i| n <= 300 || i % 100 < 3 || i + 3 > n) {
                let with = |k: char| c.iter().enumerate().map(|(j, x)| if j == i { k } else { *x }).collect::<String>();
                t.extend([with('x'), with(if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() }), c[..i].iter().collect()]);
            }
        }
        (v, texts(t))
    };
    let many = || {
        let n = 300usize;
        let lit = |i: usize| format!("{}{}", ["k", "l", "m"][i % 3], i);
        let mut rs: Vec<RuleS> = (0..n).map(|i| rule(&format!("q{i}"), s(&lit(i)))).collect();
        for i in 0..20 {
            rs.push(rule(&format!("b{i}"), E::cho((0..15).map(|j| nm(&format!("q{}", (i * 15 + j) * 7 % n))).collect())));
        }
        let all = || E::cho((0..2).map(|i| E::cho((0..10).map(|j| nm(&format!("b{}", i * 10 + j))).collect())).collect());
        let v = vec![
            all(),
            E::rep(all(), N, 0, None),
            E::seq2(E::neg(all()), N, E::rep(E::Any, N, 0, None)),
            E::seq2(E::rep(E::Nl, N, 0, None), N, all()),
            E::cho(vec![nm("q299"), nm("q0"), nm("q256"), nm("q255"), nm("q10"), nm("q1")]),
        ];
        let mut t = vec![String::new(), "?".into(), "\n?".into(), (0..n).rev().map(lit).collect(), (0..n).rev().map(lit).collect::<String>() + "?"];
        t.extend((0..n).map(lit));
        t.extend((0..n).step_by(7).map(|i| format!("\n\n{}", lit(i))));
        (host(rs), v, texts(t))
    };
    let trivia_host = host_t(vec![rule("hr", s("a"))], Some(E::rep(s(" "), N, 0, None)), Some(E::rep(s("-"), N, 1, None)));
    let plain = host(vec![rule("hr", s("a"))]);
    if matches!(prop, "C01" | "C02" | "C04" | "C05" | "C06" | "C08" | "C14") {
        b.exprs("long runs", runs(), 30, &trivia_host, &run_texts());
    }
    if matches!(prop, "C01" | "C02" | "C04" | "C05" | "C06" | "C08") {
        let (h, v, t) = nests();
        b.exprs("deep nesting", v, 10, &h, &t);
        let (h, v, t) = many();
        b.exprs("320 rules", v, 5, &h, &t);
    }
    if matches!(prop, "C01" | "C02" | "C03") {
        let (v, t) = stacks();
        b.exprs("many entries on the stack", v, 6, &plain, &t);
    }
    if matches!(prop, "C01" | "C18") {
        let (v, t) = literals();
        b.exprs("long literals", v, 10, &plain, &t);
    }
}

/// Rules of many parameters, calls that go through many rules, calls in calls in calls.
fn many_params(b: &mut B) {
    let letter = |i: usize| char::from(b'a' + i as u8).to_string();
    let mut srcs = vec![];
    for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20] {
        for quiet in [false, true] {
            // Names that sort unlike they are written.
            let k = [7, 3, 1].into_iter().find(|k| n % k != 0 || *k == 1).unwrap();
            let names: Vec<String> = (0..n).map(|i| format!("p{}", letter(i * k % n))).collect();
            let params: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
            let rot = |r: usize| -> Vec<E> { (0..n).map(|i| nm(&names[(i + r) % n])).collect() };
            let seq_of = |v: Vec<E>| if v.len() == 1 { v[0].clone() } else { E::seq(v) };
            let cho_of = |v: Vec<E>| if v.len() == 1 { v[0].clone() } else { E::cho(v) };
            let mut back = rot(0);
            back.reverse();
            let bodies = [
                seq_of(rot(0)),
                seq_of(rot(n / 2)),
                cho_of(back.clone()),
                seq_of(back.iter().map(|e| E::opt(e.clone())).collect()),
                E::call("m0", back),
                E::call("m1", rot(n / 3)),
                E::rep(E::call("m2", rot(1 % n)), N, 0, None),
            ];
            let mut h = host(vec![]);
            for (i, e) in bodies.iter().enumerate() {
                h.files[0].rules.push(RuleS { silent: quiet, ..meta(&format!("m{i}"), &params, e.clone()) });
            }
            let right: String = (0..n).map(letter).collect();
            let mut t = vec![String::new(), right.clone(), right.chars().rev().collect(), format!("{right}{right}"), format!("{right}~")];
            for i in 0..n {
                t.push(letter(i));
                t.push((0..n).map(|j| letter((j + i) % n)).collect());
                t.push((0..n).rev().map(|j| letter((j + i) % n)).collect());
                t.push((0..n).filter(|j| *j != i).map(letter).collect());
            }
            let t = texts(t);
            for (i, _) in bodies.iter().enumerate() {
                h.files[0].rules.push(rule(&format!("r{i}"), E::call(&format!("m{i}"), (0..n).map(|i| s(&letter(i))).collect())));
                h.cases.push(case(&format!("r{i}"), &t));
            }
            srcs.push(h);
        }
    }
    b.add("rules of up to 20 parameters", srcs);
    let mut srcs = vec![];
    let t = ins(&['a', 'b', 'c'], 4);
    for n in [4usize, 7, 12] {
        for quiet in 0..4usize {
            for turn in 0..4usize {
                let mut h = host(vec![rule("x", s("a")), rule("y", s("b"))]);
                for i in 0..n {
                    let (x, y) = if (i + turn) % 3 == 0 || turn == 3 { (nm("y"), nm("x")) } else { (nm("x"), nm("y")) };
                    let e = if i + 1 == n {
                        E::seq2(x, N, E::opt(y))
                    } else {
                        let next = E::call(&format!("m{}", i + 1), vec![x.clone(), if i % 4 == 2 { E::cho(vec![y, x]) } else { y }]);
                        if i % 4 == 1 { E::seq2(E::opt(s("c")), N, next) } else { next }
                    };
                    h.files[0].rules.push(RuleS { silent: quiet >> (i % 2) & 1 == 1, ..meta(&format!("m{i}"), &["x", "y"], e) });
                }
                // `wrap` in `wrap` in `wrap`.
                h.files[0].rules.push(RuleS { silent: quiet & 1 == 1, ..meta("wrap", &["x"], E::seq2(E::opt(s("c")), N, nm("x"))) });
                let mut deep = E::call("m0", vec![nm("y"), s("a")]);
                for _ in 0..n {
                    deep = E::call("wrap", vec![deep]);
                }
                h.files[0].rules.extend([rule("r0", E::call("m0", vec![nm("x"), nm("y")])), rule("r1", deep), rule("r2", E::call("m1", vec![E::call("m2", vec![s("a"), s("c")]), nm("y")]))]);
                h.cases = (0..3).map(|i| case(&format!("r{i}"), &t)).collect();
                srcs.push(h);
            }
        }
    }
    b.add("calls through up to 12 rules", srcs);
}

fn c15(b: &mut B, deep: bool) {
    many_params(b);
    let inputs = ins(&['a', 'b', 'c'], 4);
    let a = Alpha {
        leaves: vec![nm("x"), nm("y"), s("c")],
        un: vec![un(E::opt), rep(O, 0, None), un(E::pos), un(E::neg), un(E::push), rep(N, 1, Some(2))],
        bi: vec![seq(N), seq(O), cho()],
    };
    let args: Vec<(E, E)> = vec![
        (s("a"), s("b")),
        (nm("y"), nm("x")),
        (E::cho(vec![s("a"), s("b")]), E::seq2(s("a"), N, s("b"))),
        (E::seq2(nm("x"), O, s("b")), E::neg(nm("x"))),
        (E::opt(s("a")), nm("y")),
    ];
    for quiet in [false, true] {
        let mut srcs = vec![];
        for ch in all(&a, 3).chunks(30) {
            // The module has rules with the names of the parameters, too.
            let mut h = host_t(vec![rule("x", s("a")), rule("y", E::cho(vec![s("b"), s("aa")]))], Some(E::opt(s("b"))), None);
            for (i, e) in ch.iter().enumerate() {
                h.files[0].rules.push(RuleS { silent: quiet, ..meta(&format!("m{i}"), &["x", "y"], E::seq2(E::pos(E::opt(nm("x"))), N, E::seq2(E::pos(E::opt(nm("y"))), N, e.clone()))) });
                for (k, (p, q)) in args.iter().enumerate() {
                    let c = E::call(&format!("m{i}"), vec![p.clone(), q.clone()]);
                    let body = if k % 2 == 0 { c } else { E::seq2(E::opt(s("c")), N, c) };
                    h.files[0].rules.push(rule(&format!("r{i}_{k}"), body));
                    h.cases.push(case(&format!("r{i}_{k}"), &inputs));
                }
            }
            srcs.push(h);
        }
        b.add(format!("calls of {} rules with two parameters", if quiet { "silent" } else { "visible" }), srcs);
    }
    // Rules calling rules: every pair of outer and inner body, silent or not, arguments swapped.
    let bodies = |callee: Option<&str>| {
        let mut v = vec![
            E::seq2(nm("x"), N, nm("y")),
            E::cho(vec![nm("y"), nm("x")]),
            E::seq2(nm("y"), O, E::opt(nm("x"))),
        ];
        if let Some(c) = callee {
            v.push(E::call(c, vec![nm("y"), nm("x")]));
            v.push(E::call(c, vec![nm("x"), E::seq2(nm("x"), N, nm("y"))]));
            v.push(E::call(c, vec![E::call(c, vec![nm("y"), s("c")]), nm("x")]));
            v.push(E::seq2(E::call(c, vec![nm("x"), nm("x")]), N, E::opt(nm("y"))));
            v.push(E::rep(E::call(c, vec![E::cho(vec![nm("y"), nm("x")]), nm("y")]), O, 1, None));
        }
        v
    };
    let mut srcs = vec![];
    for q in 0..8 {
        for inner in bodies(None) {
            for (i, mid) in bodies(Some("m0")).into_iter().enumerate().skip(3) {
                let mut h = host_t(vec![rule("x", s("a")), rule("y", E::cho(vec![s("b"), s("ba")]))], Some(s("")), None);
                let r = |k: usize, n: &str, e: E| RuleS { silent: q >> k & 1 == 1, ..meta(n, &["x", "y"], e) };
                // Both orders of definition.
                let mut rs = vec![r(0, "m0", inner.clone()), r(1, "m1", mid)];
                let outer = bodies(Some("m1"));
                for (k, o) in outer.into_iter().enumerate() {
                    rs.push(r(2, &format!("o{k}"), o));
                }
                if i % 2 == 0 {
                    rs.reverse();
                }
                h.files[0].rules.extend(rs);
                for k in 3..8 {
                    h.files[0].rules.push(rule(&format!("t{k}"), E::call(&format!("o{k}"), vec![nm("x"), nm("y")])));
                    h.cases.push(case(&format!("t{k}"), &inputs));
                }
                srcs.push(h);
            }
        }
    }
    if !deep {
        srcs = srcs.into_iter().step_by(1).collect();
    }
    b.add("calls in calls in calls", srcs);
    // Generic rules called with rules, directly as types; order and number of arguments.
    let mut h = host(vec![rule("a", s("a")), rule("b", s("b")), rule("c", s("c"))]);
    let ps = [("p1", vec!["x"]), ("p2", vec!["x", "y"]), ("p3", vec!["x", "y", "z"]), ("p3r", vec!["z", "y", "x"])];
    for (n, p) in &ps {
        let body = E::seq(p.iter().map(|x| nm(x)).chain([E::opt(nm(p[0]))]).collect());
        h.files[0].rules.push(meta(n, p, body));
        for t in tuples(&[nm("a"), nm("b"), nm("c")], p.len()) {
            let args = t.iter().map(|e| if let E::Nm(p, _) = e { p[0].clone() } else { unreachable!() }).collect();
            h.cases.push(Case { entry: n.to_string(), args, inputs: inputs.clone() });
        }
    }
    b.add("generic rules as types", vec![h]);
    // Many parameters, the arguments in every rotation and with every two exchanged.
    let mut h = host_t((0..8).map(|i| rule(&format!("v{i}"), s(&char::from(b'a' + i as u8).to_string()))).collect(), Some(E::opt(s("-"))), None);
    let mut texts = vec![];
    for n in 4..=8usize {
        let ps: Vec<String> = (0..n).map(|i| format!("q{i}")).collect();
        let ps: Vec<&str> = ps.iter().map(|x| x.as_str()).collect();
        let body = |t: Tv| E::Seq(ps.iter().enumerate().map(|(i, p)| (if i == 0 { N } else { t }, nm(p))).collect());
        // Named in one order, used in another.
        let mut turned = ps.clone();
        turned.rotate_left(2);
        turned.swap(0, n - 1);
        h.files[0].rules.push(meta(&format!("m{n}"), &ps, body(N)));
        h.files[0].rules.push(smeta(&format!("n{n}"), &turned, body(O)));
        let mut orders: Vec<Vec<usize>> = (0..n).map(|k| (0..n).map(|i| (i + k) % n).collect()).collect();
        for i in 0..n {
            for j in i + 1..n {
                let mut o: Vec<usize> = (0..n).collect();
                o.swap(i, j);
                orders.push(o);
            }
        }
        for (k, o) in orders.iter().enumerate() {
            let args: Vec<E> = o.iter().map(|i| if k % 2 == 0 { nm(&format!("v{i}")) } else { E::opt(nm(&format!("v{i}"))) }).collect();
            for c in ["m", "n"] {
                let name = format!("{c}{n}_{k}");
                h.files[0].rules.push(rule(&name, E::call(&format!("{c}{n}"), args.clone())));
            }
            let t: String = o.iter().map(|i| char::from(b'a' + *i as u8)).collect();
            texts.extend([t[1..].to_string(), t.chars().rev().collect(), t.chars().map(|c| format!("{c}-")).collect(), t]);
        }
        for k in 0..orders.len() {
            h.cases.push(case(&format!("m{n}_{k}"), &ins(&[], 0)));
            h.cases.push(case(&format!("n{n}_{k}"), &ins(&[], 0)));
        }
    }
    texts.sort();
    texts.dedup();
    let texts = Arc::new(texts);
    h.cases.iter_mut().for_each(|c| c.inputs = texts.clone());
    b.add("up to eight parameters", vec![h]);
    // Towers of generic rules.
    let mut srcs = vec![];
    for n in 4..=8usize {
        for way in 0..4 {
            let mut rs = vec![rule("a", s("a")), rule("b", s("b")), rule("x", s("c"))];
            for i in 0..n {
                let (x, y) = (nm("x"), nm("y"));
                let next = |p: E, q: E| E::call(&format!("t{}", i + 1), vec![p, q]);
                let body = if i + 1 == n {
                    E::seq2(x, O, E::opt(y))
                } else {
                    match (way, i % 2) {
                        (0, _) => next(y, x),
                        (1, 0) => next(E::seq2(x.clone(), N, y), x),
                        (1, _) => next(y, E::cho(vec![x, s("c")])),
                        (2, _) => E::seq2(next(x.clone(), E::opt(y.clone())), N, E::opt(next(y, x))),
                        (_, 0) => next(E::opt(x), y),
                        (_, _) => E::cho(vec![next(y, nm("b")), x]),
                    }
                };
                rs.push(RuleS { silent: (i + way) % 3 == 2, ..meta(&format!("t{i}"), &["x", "y"], body) });
            }
            if way == 2 && n > 6 {
                continue;
            }
            rs.push(rule("z", E::call("t0", vec![nm("a"), nm("b")])));
            rs.push(rule("w", E::call("t0", vec![E::call("t1", vec![nm("b"), nm("x")]), nm("a")])));
            let mut h = host_t(rs, Some(E::opt(s("b"))), None);
            h.cases = vec![case("z", &inputs), case("w", &inputs)];
            srcs.push(h);
        }
    }
    b.add("towers of generic rules", srcs);
    // Parameters that are named like their rule, or like a module that it uses.
    let mut srcs = vec![];
    for three in [false, true] {
        let (mut h, _) = imported();
        let mut i = 0;
        let marks = ["", "_", "__"];
        let mut sets: Vec<Vec<(bool, &str)>> = vec![vec![]];
        for _ in 0..if three { 3 } else { 2 } {
            let old = std::mem::take(&mut sets);
            for s in old {
                for own in [false, true] {
                    for m in marks {
                        if !s.contains(&(own, m)) {
                            sets.push([s.clone(), vec![(own, m)]].concat());
                        }
                    }
                }
            }
        }
        for set in sets {
            for quiet in [false, true] {
                let name = format!("p{i}");
                i += 1;
                let ps: Vec<String> = set.iter().map(|(own, m)| format!("{}{m}", if *own { &name } else { "m" })).collect();
                let mut body: Vec<(Tv, E)> = ps.iter().enumerate().map(|(k, p)| (N, if k == 1 { E::opt(nm(p)) } else { nm(p) })).collect();
                body.push((N, E::opt(nm("m::hs"))));
                let ps: Vec<&str> = ps.iter().map(|p| p.as_str()).collect();
                h.files[0].rules.push(RuleS { silent: quiet, ..meta(&name, &ps, E::Seq(body)) });
                let args = [s("a"), s("b"), E::cho(vec![s("_"), s("a")])];
                let call = E::call(&name, args[..ps.len()].to_vec());
                h.files[0].rules.push(rule(&format!("z{i}"), call));
                h.cases.push(case(&format!("z{i}"), &inputs));
            }
        }
        srcs.push(h);
    }
    b.add("parameters named like their rule, or a module that it uses", srcs);
    // Calls into imported modules.
    let (h, _) = imported();
    let a = Alpha {
        leaves: vec![s("a"), nm("ha"), nm("m::hs")],
        un: vec![
            un(E::opt),
            un(|e| E::call("m::hg", vec![e])),
            un(|e| E::call("m::hm", vec![e])),
            un(|e| E::call("k::hg", vec![e])),
        ],
        bi: vec![seq(N), cho()],
    };
    b.exprs("calls of imported rules", all(&a, 4), 60, &h, &ins(&['a', 'b', '_'], 4));
}

/// Enumerates how up to four files import each other.
fn c16(b: &mut B, deep: bool) {
    let inputs = ins(&['a', 'b', '_', ' '], if deep { 5 } else { 4 });
    let own = |i: usize| {
        // The same names mean different things in every file.
        let (lit, tr) = [("a", " "), ("b", "_"), ("ab", "a"), ("ba", "b")][i];
        FileS {
            rules: vec![
                rule("v", s(lit)),
                rule("w", E::seq2(nm("v"), O, s("b"))),
                silent("z", E::rep(nm("v"), O, 1, Some(2))),
                meta("g", &["x"], E::seq2(nm("x"), O, nm("v"))),
            ],
            opt: Some(E::opt(s(tr))),
            man: None,
            triv_at: i,
            ..FileS::default()
        }
    };
    // Declarations as (from, to, alias); file 0 is the root. Directories: flat or nested.
    let names = ["root", "m", "n", "o"];
    let mut graphs: Vec<Vec<(usize, usize, &str)>> = vec![];
    let edges: Vec<(usize, usize, &str)> = vec![(0, 1, ""), (0, 1, "k"), (0, 2, ""), (1, 2, ""), (1, 2, "q"), (0, 3, ""), (1, 3, ""), (2, 3, ""), (2, 3, "p")];
    for mask in 1u32..1 << edges.len() {
        let g: Vec<_> = (0..edges.len()).filter(|i| mask >> i & 1 == 1).map(|i| edges[i]).collect();
        // Every importing file is reachable.
        let mut reach = [true, false, false, false];
        for _ in 0..3 {
            for e in &g {
                reach[e.1] |= reach[e.0];
            }
        }
        if g.iter().all(|e| reach[e.0]) && (deep || g.len() <= 4) {
            graphs.push(g);
        }
    }
    for nested in [0, 1, 2] {
        let mut srcs = vec![];
        for g in &graphs {
            // flat; all but the root in one directory; every file in a directory of its own.
            let dir = |i: usize| match (nested, i) {
                (_, 0) | (0, _) => vec![],
                (1, _) => vec!["lib".to_string()],
                (_, i) => vec![format!("d{i}"), "e".to_string()],
            };
            let mut src = Src { layout: Layout::File, ..Src::default() };
            let mut used: Vec<usize> = vec![0];
            for e in g {
                if !used.contains(&e.1) {
                    used.push(e.1);
                }
            }
            used.sort();
            for i in &used {
                let mut f = own(*i);
                f.path = [dir(*i), vec![format!("{}.pest", names[*i])]].concat().join("/");
                for e in g.iter().filter(|e| e.0 == *i) {
                    let mut p: Vec<String> = vec![];
                    if dir(*i) != dir(e.1) {
                        p.extend(dir(*i).iter().map(|_| "super".to_string()));
                        p.extend(dir(e.1));
                    }
                    p.push(names[e.1].to_string());
                    let mut d = p.join("::");
                    if !e.2.is_empty() {
                        d = format!("{d} as {}", e.2);
                    }
                    let to = used.iter().position(|u| *u == e.1).unwrap();
                    if nested == 1 {
                        // Built-in rules are imported in between.
                        let n = f.imps.len();
                        let of = ["any", "newline", "ascii_digit"][n / 2 % 3];
                        f.imps.push(Imp::Builtin { path: vec!["pest".into(), of.into()], alias: format!("y{n}") });
                    }
                    f.imps.push(Imp::file(&d, to));
                }
                if !f.imps.is_empty() && nested == 1 {
                    f.rules.push(rule("t", E::seq2(nm("y0"), O, nm("v"))));
                }
                src.files.push(f);
            }
            // All module paths from the root.
            let mut paths: Vec<(Vec<String>, usize)> = vec![(vec![], 0)];
            let mut k = 0;
            while k < paths.len() {
                let (p, f) = paths[k].clone();
                for i in src.files[f].imps.clone() {
                    if let Imp::File { name, to, .. } = i {
                        paths.push(([p.clone(), vec![name]].concat(), to));
                    }
                }
                k += 1;
            }
            for (k, (p, _)) in paths.iter().enumerate().skip(1) {
                let q = |n: &str| [p.clone(), vec![n.to_string()]].concat().join("::");
                src.files[0].rules.push(rule(&format!("u{k}"), E::cho(vec![nm(&q("w")), E::seq2(nm(&q("z")), O, nm("v")), E::call(&q("g"), vec![nm("v")])])));
                src.cases.push(case(&format!("u{k}"), &inputs));
                src.cases.push(case(&q("w"), &inputs));
                src.cases.push(case(&q("z"), &inputs));
                src.cases.push(Case { entry: q("g"), args: vec!["v".into()], inputs: inputs.clone() });
                if src.files[paths[k].1].rules.iter().any(|r| r.name == "t") {
                    src.cases.push(case(&q("t"), &inputs));
                }
            }
            src.cases.push(case("w", &inputs));
            srcs.push(src);
        }
        b.add(format!("{} import graphs, {}", srcs.len(), ["one directory", "two directories", "nested directories"][nested]), srcs);
    }
    // Chains of up to eight files in directories ever deeper, or ever further up, seen from the first and the last.
    let mut srcs = vec![];
    for n in 3..=8usize {
        for way in 0..4 {
            let dir = |i: usize| -> Vec<String> {
                match way {
                    0 => vec![],
                    1 => (0..i).map(|k| format!("d{k}")).collect(),
                    2 => (0..n - 1 - i).map(|k| format!("d{k}")).collect(),
                    _ => (0..i % 3).map(|k| format!("e{}{k}", i % 2)).collect(),
                }
            };
            let mut src = Src { layout: Layout::File, ..Src::default() };
            for i in 0..n {
                let mut f = own(i % 4);
                f.path = [dir(i), vec![format!("f{i}.pest")]].concat().join("/");
                if i + 1 < n {
                    let (a, z) = (dir(i), dir(i + 1));
                    let same = a.iter().zip(&z).take_while(|(x, y)| x == y).count();
                    let mut p: Vec<String> = a[same..].iter().map(|_| "super".to_string()).collect();
                    p.extend(z[same..].iter().cloned());
                    p.push(format!("f{}", i + 1));
                    f.imps.push(Imp::file(&format!("{} as {}", p.join("::"), if i % 2 == 0 { "m" } else { "k" }), i + 1));
                }
                src.files.push(f);
            }
            for to in 1..n {
                let p: Vec<&str> = (0..to).map(|i| if i % 2 == 0 { "m" } else { "k" }).collect();
                let q = |x: &str| format!("{}::{x}", p.join("::"));
                src.files[0].rules.push(rule(&format!("u{to}"), E::cho(vec![E::seq2(nm(&q("w")), O, nm("v")), E::call(&q("g"), vec![nm(&q("v"))])])));
                src.cases.push(case(&format!("u{to}"), &inputs));
                src.cases.push(case(&q("z"), &inputs));
            }
            srcs.push(src);
        }
    }
    b.add("chains of up to eight files", srcs);
    // Grammars whose own files and directories are named oddly; and inline ones.
    let mut srcs = vec![];
    for root in ["", "root.pest", "root.peg", "root", "a.b.c", "é x.pest", "d.pest/root.pest", "d.pest/e/root.peg", "pest/root.pest", "e/d.pest/root", ".pest/r.pest"] {
        for shape in 0..6usize {
            let top = match root.rsplit_once('/') {
                Some((d, _)) => format!("{d}/"),
                None => String::new(),
            };
            let here = if root.is_empty() { "HERE::" } else { "" };
            let mut src = Src { layout: if root.is_empty() { Layout::Inline } else { Layout::File }, ..Src::default() };
            // (from, to, spelling) with the files root, m, d/n, d/o
            let edges: &[(usize, usize, &str)] = [
                &[(0, 1, "m")][..],
                &[(0, 2, "d::n")],
                &[(0, 1, "m"), (1, 2, "d::n")],
                &[(0, 2, "d::n"), (2, 1, "super::m")],
                &[(0, 2, "d::n"), (2, 3, "o"), (3, 1, "super::m")],
                &[(0, 1, "m"), (0, 2, "d::n"), (1, 3, "d::o"), (2, 3, "super::d::o")],
            ][shape];
            let mut used = vec![0];
            used.extend((1..4).filter(|i| edges.iter().any(|e| e.1 == *i)));
            for i in &used {
                let mut f = own(*i);
                f.path = format!("{top}{}", ["", "m.pest", "d/n.pest", "d/o.pest"][*i]);
                if *i == 0 {
                    f.path = root.into();
                }
                for (_, to, d) in edges.iter().filter(|e| e.0 == *i) {
                    let d = if *i == 0 { format!("{here}{d}") } else { d.to_string() };
                    f.imps.push(Imp::file(&d, used.iter().position(|u| u == to).unwrap()));
                }
                src.files.push(f);
            }
            let mut paths: Vec<(Vec<String>, usize)> = vec![(vec![], 0)];
            let mut k = 0;
            while k < paths.len() {
                let (p, f) = paths[k].clone();
                for i in src.files[f].imps.clone() {
                    if let Imp::File { name, to, .. } = i {
                        paths.push(([p.clone(), vec![name]].concat(), to));
                    }
                }
                k += 1;
            }
            for (k, (p, _)) in paths.iter().enumerate().skip(1) {
                let q = |n: &str| [p.clone(), vec![n.to_string()]].concat().join("::");
                src.files[0].rules.push(rule(&format!("u{k}"), E::cho(vec![nm(&q("w")), E::seq2(nm(&q("z")), O, nm("v"))])));
                src.cases.push(case(&format!("u{k}"), &inputs));
                src.cases.push(case(&q("z"), &inputs));
            }
            srcs.push(src);
        }
    }
    b.add("root grammars with odd names, and inline", srcs);
}

fn c17(b: &mut B, _deep: bool) {
    let ascii = ["ascii_digit", "ascii_nonzero_digit", "ascii_bin_digit", "ascii_oct_digit", "ascii_hex_digit", "ascii_alpha_lower", "ascii_alpha_upper", "ascii_alpha", "ascii_alphanumeric", "ascii"];
    let mut one_char: Vec<String> = (0..0x300u32).filter_map(char::from_u32).map(|c| c.to_string()).collect();
    one_char.extend(["\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "", "\r\n", "\n\r", "\n\n", "é1", "1é", "z9", "９"].map(String::from));
    let one_char = Arc::new(one_char);
    let mut v: Vec<E> = ascii.iter().map(|n| E::Cls(n)).collect();
    v.extend([E::Any, E::Nl]);
    let classes = v.clone();
    for e in classes {
        v.push(E::rep(e.clone(), N, 1, None));
        v.push(E::seq2(E::neg(e), N, E::Any));
    }
    b.exprs("ASCII classes, any, new line", v, 60, &host(vec![rule("ha", s("a"))]), &one_char);
    // Every Unicode property on every code point where the membership in any property changes.
    let props: Vec<&'static str> = pest2::unicode::unicode_property_names().map(|n| leak(&n.to_ascii_lowercase())).collect();
    let mut at = std::collections::BTreeSet::new();
    for p in &props {
        let f = prop(p);
        let mut last = false;
        let mut prev = None;
        for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
            let x = f(c);
            if x != last {
                at.insert(c);
                at.extend(prev);
            }
            last = x;
            prev = Some(c);
        }
    }
    let inputs: Vec<String> = at.into_iter().map(|c| c.to_string()).chain([String::new()]).collect();
    let inputs = Arc::new(inputs);
    let mut srcs = vec![];
    for ch in props.chunks(20) {
        let mut h = host(vec![]);
        for n in ch {
            let name = format!("u_{n}");
            h.files[0].rules.push(rule(&name, E::Cls(leak(&format!("unicode::{n}")))));
            h.cases.push(case(&name, &inputs));
            h.uni.push(name);
        }
        srcs.push(h);
    }
    b.add(format!("{} Unicode properties x {} characters where membership changes", props.len(), inputs.len()), srcs);
}

fn c18(b: &mut B, deep: bool) {
    let al = ['a', 'Z', 'k', 'é', '[', '@', '{', 'ß'];
    let lits: Vec<String> = strings(&al, if deep { 3 } else { 2 }).into_iter().filter(|t| !t.is_empty()).collect();
    let inputs = ins(&['a', 'A', 'z', 'K', 'é', 'É', '{', '[', '\u{212a}', 'ſ'], if deep { 3 } else { 2 });
    let mut v = vec![];
    for l in &lits {
        v.push(E::Ins(l.clone()));
    }
    for l in lits.iter().take(72) {
        v.push(E::seq2(E::Ins(l.clone()), N, E::opt(E::Any)));
        v.push(E::rep(E::Ins(l.clone()), N, 0, None));
        v.push(E::seq2(E::neg(E::Ins(l.clone())), N, E::Any));
    }
    b.exprs("case-insensitive literals", v, 60, &host(vec![rule("ha", s("a"))]), &inputs);
}

fn c19(b: &mut B, deep: bool) {
    let mut srcs = vec![];
    let mut widths: Vec<usize> = (2..=20).collect();
    widths.extend([24, 26]);
    if deep {
        widths.extend([21, 22, 23, 25]);
    }
    for n in widths {
        let c = |i: usize| char::from(b'a' + i as u8).to_string();
        for k in 0..4usize {
            let t = |i: usize| match k {
                0 => N,
                1 => O,
                2 => M,
                _ => [N, O, M][i % 3],
            };
            let mut h = host_t(vec![rule("hr", s("a"))], Some(E::rep(s(" "), N, 0, Some(2))), Some(s("-")));
            let parts: Vec<(Tv, E)> = (0..n)
                .map(|i| {
                    let e = match (k, i % 4) {
                        (3, 1) => E::Rng('a', 'z'),
                        (3, 2) => E::opt(s(&c(i))),
                        _ => s(&c(i)),
                    };
                    (if i == 0 { N } else { t(i) }, e)
                })
                .collect();
            h.files[0].rules.push(rule("sq", E::Seq(parts)));
            let gap = |i: usize| match t(i) {
                Tv::No => "",
                Tv::Opt(_) => " ",
                Tv::Man(_) => "-",
            };
            let full = |gaps: &dyn Fn(usize) -> String, part: &dyn Fn(usize) -> String| {
                (0..n).map(|i| if i == 0 { part(i) } else { gaps(i) + &part(i) }).collect::<String>()
            };
            let mut inputs = vec![];
            let g0 = |i: usize| if matches!(t(i), Tv::Man(_)) { "-".to_string() } else { String::new() };
            inputs.push(full(&g0, &c));
            inputs.push(full(&|i| gap(i).to_string(), &c) + "z");
            for j in 0..n {
                // One gap different, one part different, one part missing, cut off.
                for g in ["", " ", "  ", "   ", "-", "--"] {
                    inputs.push(full(&|i| if i == j { g.to_string() } else { g0(i) }, &c));
                }
                inputs.push(full(&g0, &|i| if i == j { "~".into() } else { c(i) }));
                inputs.push(full(&g0, &|i| if i == j { String::new() } else { c(i) }));
                inputs.push((0..j).map(|i| if i == 0 { c(i) } else { g0(i) + &c(i) }).collect());
            }
            inputs.sort();
            inputs.dedup();
            h.cases.push(case("sq", &Arc::new(inputs)));
            srcs.push(h);
        }
        // Choices: plain; with a push that must be undone; where several alternatives match.
        let mut h = host(vec![rule("hr", s("a"))]);
        h.files[0].rules.push(rule("ch", E::cho((0..n).map(|i| s(&c(i))).collect())));
        h.files[0].rules.push(rule(
            "cp",
            E::seq2(E::cho((0..n).map(|i| E::seq2(E::push(s("a")), N, s(&c(i)))).collect()), N, E::seq2(E::PeekAll, N, E::Eoi)),
        ));
        h.files[0].rules.push(rule("cl", E::cho((0..n).map(|i| s(&"a".repeat(n - i))).collect())));
        h.files[0].rules.push(rule("cr", E::rep(E::cho((0..n).map(|i| s(&c(i))).collect()), N, 0, None)));
        let mut inputs: Vec<String> = vec![String::new(), "~".into(), (0..n).map(c).collect(), (0..n).rev().map(c).collect()];
        for i in 0..=n {
            inputs.push(c(i));
            inputs.push(format!("a{}a", c(i)));
            inputs.push(format!("a{}aa", c(i)));
            inputs.push("a".repeat(i + 1));
        }
        inputs.sort();
        inputs.dedup();
        let inputs = Arc::new(inputs);
        for e in ["ch", "cp", "cl", "cr"] {
            h.cases.push(case(e, &inputs));
        }
        srcs.push(h);
    }
    b.add("sequences and choices of width 2 to 26", srcs);
}

fn c21(b: &mut B, deep: bool) {
    let ab = ins(&['a', 'b', ' ', '('], 4);
    let bases: Vec<(&str, Src)> = {
        let mut v = vec![];
        let mut h = host_t(
            vec![
                rule("ea", E::cho(vec![s("a"), E::seq2(s("("), O, E::seq2(nm("eb"), O, E::opt(s("b"))))])),
                rule("eb", E::rep(nm("ec"), O, 1, None)),
                silent("ec", E::cho(vec![nm("ed"), nm("ea")])),
                rule("ed", E::seq2(s("b"), N, E::opt(nm("ed")))),
                meta("eg", &["x"], E::seq2(nm("x"), O, E::opt(nm("x")))),
                rule("eh", E::call("eg", vec![nm("ea")])),
                smeta("es", &["x", "y"], E::seq2(nm("x"), N, nm("y"))),
                rule("ei", E::call("es", vec![nm("eh"), E::cho(vec![nm("ed"), s("(")])])),
            ],
            Some(E::rep(s(" "), N, 0, None)),
            None,
        );
        for e in ["ea", "eb", "ec", "ed", "eh", "ei"] {
            h.cases.push(case(e, &ab));
        }
        v.push(("recursive rules", h));
        let mut h = host(vec![]);
        // Cycles of length one to three through every operator.
        let through: Vec<(&str, fn(E) -> E)> = vec![
            ("o", E::opt),
            ("r", |e| E::rep(e, N, 0, None)),
            ("s", |e| E::seq2(s("b"), N, E::opt(e))),
            ("c", |e| E::cho(vec![s("b"), e])),
            ("p", |e| E::opt(E::pos(e))),
            ("n", |e| E::opt(E::neg(e))),
            ("u", |e| E::opt(E::push(e))),
        ];
        for (n, f) in &through {
            h.files[0].rules.push(rule(&format!("f{n}"), E::seq2(s("a"), N, E::opt(f(nm(&format!("f{n}")))))));
            h.files[0].rules.push(rule(&format!("p{n}"), E::seq2(s("a"), N, f(nm(&format!("q{n}"))))));
            h.files[0].rules.push(rule(&format!("q{n}"), E::seq2(s("b"), N, E::opt(f(nm(&format!("p{n}")))))));
            h.files[0].rules.push(rule(&format!("t{n}"), E::cho(vec![f(nm(&format!("f{n}"))), s("b")])));
            for e in ["f", "p", "q", "t"] {
                h.cases.push(case(&format!("{e}{n}"), &ab));
            }
        }
        // Cycles through rules with parameters.
        let call = |n: &str, e: E| E::call(n, vec![e]);
        h.files[0].rules.extend([
            meta("ga", &["x"], E::seq2(s("a"), N, E::seq2(E::opt(call("ga", nm("x"))), N, nm("x")))),
            meta("gb", &["x"], E::cho(vec![nm("x"), E::seq2(s("("), N, call("gc", nm("x")))])),
            meta("gc", &["x"], E::rep(E::seq2(s("a"), N, call("gb", nm("x"))), N, 1, None)),
            meta("ge", &["x"], E::seq2(nm("x"), N, s("b"))),
            smeta("gs", &["x"], E::cho(vec![E::seq2(s("a"), N, nm("x")), s("b")])),
            rule("za", call("ga", s("b"))),
            rule("zb", call("gb", s("b"))),
            rule("zc", call("gb", call("ga", s("b")))),
            rule("zd", E::cho(vec![call("ge", E::seq2(s("a"), N, E::opt(nm("zd")))), s("b")])),
            rule("ze", call("gs", E::opt(nm("ze")))),
            rule("zf", call("gs", E::cho(vec![call("ge", nm("zf")), s("(")]))),
            rule("zg", E::cho(vec![s("b"), call("gc", nm("zh"))])),
            rule("zh", E::cho(vec![E::seq2(s("a"), N, nm("zg")), s("b")])),
        ]);
        for e in ["za", "zb", "zc", "zd", "ze", "zf", "zg", "zh"] {
            h.cases.push(case(e, &ab));
        }
        v.push(("cycles", h));
        let mut h = host(vec![]);
        for (n, f) in &through {
            for (m, g) in &through {
                let k = |x: &str| format!("{x}{n}{m}");
                let (p, q, u, w, y, z, c) = (k("p"), k("q"), k("u"), k("w"), k("y"), k("z"), k("c"));
                h.files[0].rules.extend([
                    // Through plain rules, through an argument, and through rules with parameters.
                    rule(&p, E::seq2(s("a"), N, E::opt(f(nm(&q))))),
                    rule(&q, E::seq2(s("b"), N, E::opt(g(nm(&p))))),
                    meta(&u, &["x"], E::seq2(s("b"), N, E::opt(g(nm("x"))))),
                    rule(&w, E::seq2(s("a"), N, E::opt(f(call(&u, nm(&w)))))),
                    meta(&y, &["x"], E::cho(vec![E::seq2(nm("x"), N, E::opt(f(call(&z, nm("x"))))), s("b")])),
                    RuleS { silent: true, ..meta(&z, &["x"], E::seq2(s("b"), N, E::opt(g(call(&y, nm("x")))))) },
                    rule(&c, call(&y, E::cho(vec![s("("), E::seq2(s("a"), N, E::opt(nm(&c)))]))),
                ]);
                for e in [&p, &q, &w, &c] {
                    h.cases.push(case(e, &ab));
                }
            }
        }
        v.push(("cycles through two operators", h));
        // Cycles through many rules, in every order of the file.
        let mut h = host(vec![]);
        for n in [3usize, 4, 5, 7, 12, 24, 40] {
            for turn in (0..4).step_by(1 + (n > 8 && !deep) as usize) {
                let name = |k: usize| format!("k{n}t{turn}n{}", k % n);
                let mut rules: Vec<RuleS> = (0..n)
                    .map(|k| {
                        let next = nm(&name(k + 1));
                        let next = if k % 5 == 3 { E::opt(next) } else { next };
                        match (k + turn) % 4 {
                            _ if k + 1 == n => rule(&name(k), E::cho(vec![s("b"), E::seq2(s("("), N, next)])),
                            0 => rule(&name(k), E::cho(vec![E::seq2(s("a"), N, next.clone()), E::seq2(s(" "), N, next)])),
                            1 => RuleS { silent: turn > 1, ..rule(&name(k), E::seq2(s("a"), N, next)) },
                            _ => rule(&name(k), E::seq2(E::opt(s("a")), N, next)),
                        }
                    })
                    .collect();
                match turn {
                    1 => rules.reverse(),
                    2 => {
                        let (x, y): (Vec<_>, Vec<_>) = rules.into_iter().enumerate().partition(|(k, _)| k % 2 == 1);
                        rules = x.into_iter().chain(y).map(|(_, r)| r).collect();
                    }
                    _ => (),
                }
                h.files[0].rules.extend(rules);
                let long: Vec<String> = (0..n + 2).flat_map(|k| [format!("{}b", "a".repeat(k)), format!("{}({}b", "a".repeat(k), "a".repeat(k)), "a".repeat(k)]).collect();
                let t = texts(long.into_iter().chain(ab.iter().take(60).cloned()).collect());
                h.cases.push(case(&name(0), &t));
                h.cases.push(case(&name(n / 2), &t));
            }
        }
        v.push(("long cycles", h));
        let (mut h, a) = mixed();
        for (i, e) in all(&a, 2).iter().enumerate() {
            h.files[0].rules.push(rule(&format!("r{i}"), e.clone()));
            h.cases.push(case(&format!("r{i}"), &ab));
        }
        v.push(("mixed", h));
        let (mut h, a) = imported();
        for (i, e) in all(&a, 2).iter().enumerate() {
            h.files[0].rules.push(rule(&format!("r{i}"), e.clone()));
            h.cases.push(case(&format!("r{i}"), &ab));
        }
        for e in ["m::ha", "k::ha", "m::hs"] {
            h.cases.push(case(e, &ab));
        }
        v.push(("imports", h));
        v
    };
    for (name, base) in bases {
        let mut srcs = vec![];
        let g = b.next + 1_000_000;
        let first = b.next;
        let mut base = base;
        base.group = g;
        base.acc = true;
        base.names = ["ha", "hs", "ea", "eb", "ec", "ed", "fa", "x", "any"].map(String::from).to_vec();
        srcs.push(base.clone());
        let flags = ["#[no_pair]", "#[no_getter]", "#[box_rules_only_if_needed]", "#[rules_mod = \"other\"]", "#[no_span]", "#[no_warnings]"];
        let mut sets: Vec<u32> = (0..6).map(|i| 1 << i).collect();
        let few = name == "cycles through two operators" || name == "long cycles";
        if few {
            sets = vec![0b000100, 0b001111];
        } else if deep {
            sets = (1..64).collect();
        } else {
            sets.extend([0b001111, 0b001100, 0b000110, 0b111111, 0b000101, 0b001001]);
        }
        for f in sets {
            let mut s = base.clone();
            s.attrs = (0..6).filter(|i| f >> i & 1 == 1).map(|i| flags[i]).collect::<Vec<_>>().join(" ");
            s.pairs = f & 1 == 0;
            s.getters = f & 2 == 0;
            if f & 8 != 0 {
                s.rules_mod = "other".into();
            }
            s.like = Some(first);
            srcs.push(s);
        }
        if few {
            b.add(format!("options: {name}"), srcs);
            continue;
        }
        for form in ["#[no_pair = true]", "#[no_getter = true]", "#[box_rules_only_if_needed = true]", "#[no_pair = false]", "#[no_getter = false]", "#[box_rules_only_if_needed = false]"] {
            let mut s = base.clone();
            s.attrs = form.into();
            s.pairs = form != "#[no_pair = true]";
            s.getters = form != "#[no_getter = true]";
            s.like = Some(first);
            srcs.push(s);
        }
        for (item, ty) in ITEMS {
            let mut s = base.clone();
            s.item = (item.to_string(), ty.to_string());
            s.like = Some(first);
            srcs.push(s);
        }
        for l in [Layout::Inline, Layout::File, Layout::Split(2), Layout::Split(3), Layout::Split(4)] {
            if base.files.len() > 1 && l != Layout::File {
                // Imports are relative to the file they are written in.
                continue;
            }
            for braces in [false, true] {
                let mut s = base.clone();
                s.layout = l.clone();
                s.files[0].braces = braces;
                s.like = Some(first);
                srcs.push(s);
            }
        }
        b.add(format!("options and layouts: {name}"), srcs);
    }
}

/// Items that a parser is derived for, with a type made of each.
const ITEMS: [(&str, &str); 9] = [
    ("pub struct P {}", "P "),
    ("#[allow(dead_code)]\npub struct P(pub u8, pub String);", "P "),
    ("#[allow(dead_code)]\n#[derive(Clone, Copy, Debug)]\npub enum P { A, B(u8), C { x: u8 } }", "P "),
    ("pub enum P {}", "P "),
    ("#[allow(dead_code)]\npub struct P<'x, 'i: 'x>(pub &'x &'i str);", "P<'static, 'static>"),
    ("#[allow(dead_code)]\npub struct P<T>(pub T);", "P<u8>"),
    ("#[allow(dead_code)]\npub struct P<'x, T: Clone + 'x = u8, const N: usize = 2>(pub [&'x T; N]);", "P<'static, String, 3>"),
    ("#[allow(dead_code)]\npub struct P<T, R> where T: Iterator<Item = R>, R: Clone { pub x: T, pub r: R }", "P<std::vec::IntoIter<u8>, u8>"),
    ("#[allow(dead_code)]\npub(crate) union P<T: Copy> { pub x: u8, pub y: T }", "P<u8>"),
];

fn c12(b: &mut B, deep: bool) {
    let mut chars: Vec<char> = (0..128u32).filter_map(char::from_u32).collect();
    chars.extend(['\u{80}', '\u{85}', '\u{a0}', 'é', 'ÿ', 'Ā', '\u{301}', '\u{7ff}', '\u{800}', '\u{200b}', '\u{2028}', '日', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '😀', '\u{10ffff}']);
    let mut srcs = vec![];
    let mut rules: Vec<(RuleS, Arc<Vec<String>>)> = vec![];
    for c in chars {
        let u = c as u32;
        let near: Vec<String> = [Some(c), char::from_u32(u.wrapping_sub(1)), char::from_u32(u + 1)]
            .into_iter()
            .flatten()
            .flat_map(|c| [c.to_string(), c.to_ascii_uppercase().to_string(), c.to_ascii_lowercase().to_string(), format!("{c}{c}"), format!("x{c}")])
            .chain([String::new(), "\\".into(), "n".into(), "0".into()])
            .collect();
        let near = Arc::new(near);
        let mut forms: Vec<String> = vec![];
        if u < 128 {
            forms.push(format!("\\x{u:02x}"));
            forms.push(format!("\\x{u:02X}"));
        }
        forms.push(format!("\\u{{{u:x}}}"));
        if deep || u % 4 == 0 || u > 127 {
            forms.push(format!("\\u{{{u:06X}}}"));
        }
        match c {
            '\n' => forms.push("\\n".into()),
            '\r' => forms.push("\\r".into()),
            '\t' => forms.push("\\t".into()),
            '\0' => forms.push("\\0".into()),
            '\\' => forms.push("\\\\".into()),
            '"' => forms.push("\\\"".into()),
            '\'' => forms.push("\\'".into()),
            _ => (),
        }
        // A carriage return cannot be written in a Rust raw string.
        let plain = c != '\\' && c != '"' && c != '\r';
        for f in forms.iter().cloned().chain(plain.then(|| c.to_string())) {
            let add = |e: E, t: String, rules: &mut Vec<(RuleS, Arc<Vec<String>>)>| {
                rules.push((RuleS { text: Some(t), ..rule("", e) }, near.clone()));
            };
            add(E::s(&c.to_string()), format!("\"{f}\""), &mut rules);
            add(E::s(&format!("x{c}")), format!("\"x{f}\""), &mut rules);
            add(E::Ins(c.to_string()), format!("i\"{f}\""), &mut rules);
            if !(c == '\'' && f.len() == 1) {
                add(E::Rng(c, c), format!("'{f}'..'{f}'"), &mut rules);
            }
        }
        if c != '\r' {
            if c != '"' {
                rules.push((RuleS { text: Some(format!("r\"{c}\"")), ..rule("", E::s(&c.to_string())) }, near.clone()));
            }
            if c != '#' {
                rules.push((RuleS { text: Some(format!("r#\"{c}\"#")), ..rule("", E::s(&c.to_string())) }, near.clone()));
            }
        }
    }
    for ch in rules.chunks(60) {
        let mut h = host(vec![rule("ha", s("a"))]);
        // Inline text goes through a Rust literal; a file does not.
        h.layout = Layout::File;
        for (i, (r, inp)) in ch.iter().enumerate() {
            h.files[0].rules.push(RuleS { name: format!("r{i}"), ..r.clone() });
            h.cases.push(case(&format!("r{i}"), inp));
        }
        srcs.push(h);
    }
    b.add(format!("{} literals in every spelling", rules.len()), srcs);
    // Many literals that differ little in one grammar.
    let texts = strings(&['a', 'A', ' ', '\n', 'é'], if deep { 4 } else { 3 });
    let mut v: Vec<E> = texts.iter().map(|t| s(t)).collect();
    v.extend(texts.iter().filter(|t| !t.is_empty()).map(|t| E::Ins(t.clone())));
    let n = v.len();
    b.exprs("literals that differ little", v, n, &host(vec![rule("ha", s("a"))]), &Arc::new(texts));
    let chars = ['a', 'b', 'é', 'z', '\u{7f}', '\u{100}'];
    let v: Vec<E> = chars.iter().flat_map(|x| chars.iter().map(|y| E::Rng(*x, *y))).collect();
    let inputs: Vec<String> = chars.iter().chain(&['A', '\0', '`', '{', '\u{80}', '\u{ff}', '\u{101}', '日', '😀']).map(|c| c.to_string()).collect();
    b.exprs("ranges that differ little", v, 40, &host(vec![rule("ha", s("a"))]), &Arc::new(inputs));
    // Bounds and slices.
    let mut v = vec![];
    for lo in 0..4usize {
        for hi in [None, Some(1), Some(2), Some(3), Some(4)] {
            if hi.map_or(true, |h| lo <= h) {
                v.push(E::rep(s("a"), N, lo, hi));
                v.push(E::seq2(E::rep(E::cho(vec![s("a"), s("b")]), O, lo, hi), N, E::Eoi));
            }
        }
    }
    for lo in -3..=3 {
        for hi in [None, Some(-3), Some(-2), Some(-1), Some(0), Some(1), Some(2), Some(3)] {
            v.push(E::seq(vec![E::push(E::Any), E::push(E::Any), E::Sl(lo, hi)]));
        }
    }
    b.exprs("bounds and slices", v, 60, &host_t(vec![rule("ha", s("a"))], Some(s("")), None), &ins(&['a', 'b'], 5));
    let (v, inputs) = deep_reps();
    let v = v.into_iter().skip(2).step_by(3).collect();
    b.exprs("large bounds", v, 60, &host_t(vec![rule("hr", s("a"))], Some(s("")), Some(s(""))), &inputs);
    let mut v = vec![];
    for lo in [-100, -12, -10, -9, -1, 0, 1, 9, 10, 12, 100] {
        for hi in [None, Some(-100), Some(-12), Some(-10), Some(-1), Some(0), Some(1), Some(9), Some(10), Some(12), Some(100)] {
            v.push(E::seq(vec![E::rep(E::push(E::Any), N, 12, Some(12)), E::Sl(lo, hi)]));
        }
    }
    let mut inputs: Vec<String> = vec![];
    let text = "abababababba";
    for i in 0..=12 {
        for j in i..=12 {
            inputs.push(format!("{text}{}", &text[i..j]));
            inputs.push(format!("{text}{}a", &text[i..j]));
        }
    }
    inputs.sort();
    inputs.dedup();
    b.exprs("slices of twelve entries", v, 60, &host(vec![rule("ha", s("a"))]), &Arc::new(inputs));
}

/// Names that could collide with Rust or with what is generated.
pub const TRICKY: &[&str] = &[
    "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub",
    "ref", "return", "static", "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do",
    "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield", "gen", "union", "auto", "default", "raw", "rules", "generics", "wrapper",
    "unicode", "content", "span", "field_0", "Sequence2", "Choice2", "Option", "Vec", "Box", "String", "str", "usize", "char", "bool", "Some", "None", "Ok", "Err",
    "T0", "T", "R", "i", "s", "res", "input", "stack", "tracker", "f", "any", "soi", "eoi", "peek", "push", "drop", "pop", "Rep", "Str", "core", "std", "alloc", "W0", "P",
    "__", "_a", "A", "a1", "choice_0", "clone", "fmt", "eq", "check", "try_parse", "newline", "ascii", "pest3", "Span", "Position", "Parser", "TypedNode", "vec", "matched", "deref", "iter", "map",
];

fn c13(b: &mut B, _deep: bool) {
    let ab = ins(&['a', 'b'], 4);
    let skip: &[&str] = &[];
    let mut srcs = vec![];
    for n in TRICKY.iter().filter(|n| !skip.contains(n)) {
        // As a rule, visible or silent, referred to, accessed, and as an argument.
        for quiet in [false, true] {
            let mut h = host(vec![
                RuleS { silent: quiet, ..rule(n, E::cho(vec![s("a"), E::seq2(s("b"), N, nm(n))])) },
                rule("zz", E::seq2(nm(n), N, E::opt(nm(n)))),
                meta("zg", &["zx"], E::seq2(nm("zx"), N, E::opt(nm("zx")))),
                rule("zc", E::call("zg", vec![nm(n)])),
            ]);
            h.cases = vec![case(n, &ab), case("zz", &ab), case("zc", &ab)];
            srcs.push(h);
        }
        // As a parameter of a visible and of a silent rule.
        let mut h = host(vec![
            rule("za", s("a")),
            meta("zg", &[n], E::seq2(nm(n), N, E::opt(nm(n)))),
            smeta("zs", &[n], E::seq2(E::opt(nm(n)), N, s("b"))),
            rule("zc", E::cho(vec![E::call("zg", vec![nm("za")]), E::call("zs", vec![nm("za")])])),
        ]);
        h.cases = vec![case("zc", &ab), Case { entry: "zg".into(), args: vec!["za".into()], inputs: ab.clone() }];
        srcs.push(h);
        // As the name of a generic rule.
        let mut h = host(vec![rule("za", s("a")), meta(n, &["zx"], E::seq2(nm("zx"), N, s("b"))), rule("zc", E::call(n, vec![nm("za")]))]);
        h.cases = vec![case("zc", &ab)];
        srcs.push(h);
        // As the name of an imported module, and of a rule in it.
        let mut h = host(vec![rule("za", s("a")), rule("zz", E::seq2(nm(&format!("{n}::zm")), N, E::opt(nm(&format!("{n}::{n}")))))]);
        h.layout = Layout::File;
        h.files[0].imps = vec![Imp::file(&format!("m as {n}"), 1)];
        h.files.push(FileS {
            path: "m.pest".into(),
            rules: vec![rule("zm", E::cho(vec![s("a"), nm(n)])), rule(n, s("b"))],
            ..FileS::default()
        });
        h.cases = vec![case("zz", &ab), case(&format!("{n}::zm"), &ab), case(&format!("{n}::{n}"), &ab)];
        srcs.push(h);
        // As another name of a built-in rule.
        let mut h = host(vec![rule("za", s("a")), rule("zz", E::seq2(nm(n), N, nm("za")))]);
        h.files[0].imps = vec![Imp::Builtin { path: vec!["pest".into(), "any".into()], alias: n.to_string() }];
        h.cases = vec![case("zz", &ab)];
        srcs.push(h);
    }
    b.add(format!("{} names that could collide", TRICKY.len()), srcs);
    // Parameters named like something else that is in sight.
    let mut srcs = vec![];
    for n in ["za", "zg", "zc", "zb", "m", "k", "zm", "w", "any", "ascii_digit"] {
        let bodies = [
            nm(n),
            E::seq2(nm(n), N, nm("m::zm")),
            E::seq2(nm("k::zm"), N, E::opt(nm(n))),
            E::cho(vec![E::seq2(nm("m::zb"), N, nm(n)), nm(n)]),
            E::seq2(E::opt(nm("w")), N, nm(n)),
            E::seq2(nm("zb"), N, nm(n)),
        ];
        for (i, body) in bodies.into_iter().enumerate() {
            for quiet in [false, true] {
                let mut h = host(vec![
                    rule("za", s("a")),
                    rule("zb", s("b")),
                    meta("zc", &["x"], E::seq2(nm("x"), N, s("b"))),
                    RuleS { silent: quiet, ..meta("zg", &[n], body.clone()) },
                    rule("z0", E::call("zg", vec![nm("za")])),
                    rule("z1", E::call("zg", vec![E::opt(E::cho(vec![nm("zb"), nm("m::zm")]))])),
                    rule("z2", E::call("zg", vec![E::call("zg", vec![nm("za")])])),
                ]);
                h.layout = Layout::File;
                h.files[0].imps = vec![Imp::file("m", 1), Imp::file("m as k", 1), Imp::Builtin { path: vec!["pest".into(), "any".into()], alias: "w".into() }];
                h.files.push(FileS { path: "m.pest".into(), rules: vec![rule("zm", s("ab")), rule("zb", s("ba"))], ..FileS::default() });
                h.cases = vec![case("z0", &ab), case("z1", &ab), case("z2", &ab)];
                let _ = i;
                srcs.push(h);
            }
        }
    }
    b.add("parameters named like something else", srcs);
    // Every order of definition of rules that refer to each other.
    let rs = vec![
        rule("za", E::seq2(s("a"), N, E::opt(nm("zb")))),
        rule("zb", E::cho(vec![E::call("zg", vec![nm("za")]), s("b")])),
        meta("zg", &["zb"], E::seq2(s("b"), N, nm("zb"))),
        smeta("zs", &["za"], E::call("zg", vec![E::opt(nm("za"))])),
        rule("zc", E::call("zs", vec![nm("zb")])),
    ];
    let mut srcs = vec![];
    for k in 0..120usize {
        let mut rest = rs.clone();
        let mut order = vec![];
        let mut k = k;
        for i in (1..=5).rev() {
            order.push(rest.remove(k % i));
            k /= i;
        }
        let mut h = host(order);
        h.cases = vec![case("za", &ab), case("zb", &ab), case("zc", &ab)];
        srcs.push(h);
    }
    b.add("every order of five definitions", srcs);
}

/// Grammars as people write them, each with the pieces its texts are made of.
fn world() -> Vec<(&'static str, Src, Vec<&'static str>, Vec<&'static str>)> {
    let ch = |v: &[&str]| E::cho(v.iter().map(|x| s(x)).collect());
    let not = |e: E, then: E| E::seq2(E::neg(e), N, then);
    let many = |e: E| E::rep(e, N, 0, None);
    let list = |x: E, sep: &str, t: Tv| E::Seq(vec![(N, x.clone()), (t, E::rep(E::Seq(vec![(N, s(sep)), (t, x)]), t, 0, None))]);
    let abc = |parts: Vec<E>, t: Tv| E::Seq(parts.into_iter().enumerate().map(|(i, e)| (if i == 0 { N } else { t }, e)).collect());
    let mut v = vec![];
    let json = host_t(
        vec![
            rule("json", abc(vec![E::Soi, nm("value"), E::Eoi], O)),
            silent("value", E::cho(vec![nm("object"), nm("array"), nm("string"), nm("number"), nm("boolean"), s("null")])),
            rule("object", E::cho(vec![abc(vec![s("{"), list(nm("member"), ",", O), s("}")], O), E::seq2(s("{"), O, s("}"))])),
            rule("member", abc(vec![nm("string"), s(":"), nm("value")], O)),
            rule("array", abc(vec![s("["), E::opt(list(nm("value"), ",", O)), s("]")], O)),
            rule("string", abc(vec![s("\""), nm("inner"), s("\"")], N)),
            rule("inner", many(E::cho(vec![E::seq2(s("\\"), N, ch(&["n", "\"", "\\"])), not(ch(&["\"", "\\"]), E::Any)]))),
            rule(
                "number",
                abc(
                    vec![
                        E::opt(s("-")),
                        E::cho(vec![s("0"), E::seq2(E::Rng('1', '9'), N, many(E::Cls("ascii_digit")))]),
                        E::opt(E::seq2(s("."), N, E::rep(E::Cls("ascii_digit"), N, 1, None))),
                    ],
                    N,
                ),
            ),
            rule("boolean", ch(&["true", "false"])),
        ],
        Some(many(ch(&[" ", "\n"]))),
        None,
    );
    v.push(("JSON", json, vec!["json", "value", "member"], vec!["{", "}", "[", "]", ",", ":", "\"", "\\", "n", "0", "1", "-", ".", " ", "true"]));
    let calc = host_t(
        vec![
            rule("program", E::seq2(nm("sum"), O, E::Eoi)),
            rule("sum", E::seq2(nm("product"), O, E::rep(E::seq2(ch(&["+", "-"]), O, nm("product")), O, 0, None))),
            rule("product", E::seq2(nm("unary"), O, E::rep(abc(vec![nm("times"), nm("unary")], O), O, 0, None))),
            silent("times", s("*")),
            rule("unary", abc(vec![many(s("-")), nm("primary"), many(s("!"))], N)),
            silent("primary", E::cho(vec![nm("int"), abc(vec![s("("), nm("sum"), s(")")], O), nm("name")])),
            rule("int", E::rep(E::Rng('0', '9'), N, 1, Some(3))),
            rule("name", not(nm("keyword"), E::seq2(nm("letter"), N, many(E::cho(vec![nm("letter"), E::Rng('0', '9')]))))),
            rule("keyword", E::seq2(s("if"), N, E::neg(nm("letter")))),
            silent("letter", E::Rng('a', 'z')),
        ],
        Some(many(E::cho(vec![s(" "), nm("comment")]))),
        None,
    );
    let mut calc = calc;
    calc.files[0].rules.push(rule("comment", abc(vec![s("/*"), many(E::cho(vec![nm("comment"), not(s("*/"), E::Any)])), s("*/")], N)));
    v.push(("calculator with comments", calc, vec!["program", "sum", "name"], vec!["0", "12", "+", "-", "*", "!", "(", ")", "if", "i", " ", "/*", "*/"]));
    let xml = host(vec![
        rule("doc", E::seq2(E::rep(nm("elem"), N, 1, None), N, E::Eoi)),
        rule("elem", abc(vec![nm("open"), many(E::cho(vec![nm("elem"), nm("txt")])), nm("close")], N)),
        rule("open", abc(vec![s("<"), E::push(nm("tag")), s(">")], N)),
        silent("close", abc(vec![s("</"), E::Pop, s(">")], N)),
        rule("tag", E::rep(E::Rng('a', 'b'), N, 1, None)),
        rule("txt", E::rep(E::Rng('x', 'z'), N, 1, None)),
    ]);
    v.push(("nested tags", xml, vec!["doc", "elem"], vec!["<a>", "<ab>", "</a>", "</ab>", "<b>", "</b>", "x", "<", "a", ">"]));
    let raw = host(vec![
        rule("raw", abc(vec![s("r"), E::push(many(s("#"))), s("\""), nm("content"), s("\""), E::Pop], N)),
        rule("content", many(not(E::seq2(s("\""), N, E::Peek), E::Any))),
        rule("raws", abc(vec![nm("raw"), many(E::seq2(s(" "), N, nm("raw"))), E::Eoi], N)),
    ]);
    v.push(("raw strings", raw, vec!["raw", "raws"], vec!["r", "#", "\"", "é", " ", "r\"", "r#\""]));
    let block = host(vec![
        rule("file", E::seq2(nm("lines"), N, E::Eoi)),
        silent("lines", E::seq2(nm("line"), N, many(E::seq2(E::Nl, N, nm("line"))))),
        rule("line", abc(vec![E::PeekAll, nm("word"), E::opt(nm("block"))], N)),
        rule("block", abc(vec![s(":"), E::Nl, E::pos(abc(vec![E::PeekAll, E::push(E::rep(s(" "), N, 1, None))], N)), E::seq2(E::PeekAll, N, E::push(E::rep(s(" "), N, 1, None))), nm("word"), many(abc(vec![E::Nl, E::PeekAll, nm("word")], N)), E::Drop], N)),
        rule("word", E::rep(E::Rng('a', 'z'), N, 1, None)),
    ]);
    v.push(("indented blocks", block, vec!["file", "line"], vec!["a", ":", "\n", "\r\n", " ", "  ", "b:"]));
    let mut lists = host_t(
        vec![
            meta("sep", &["x", "by"], E::Seq(vec![(N, nm("x")), (O, E::rep(E::Seq(vec![(N, nm("by")), (O, nm("x"))]), O, 0, None))])),
            smeta("paren", &["x"], abc(vec![s("("), nm("x"), s(")")], O)),
            rule("sexpr", E::cho(vec![nm("atom"), nm("quote"), E::call("paren", vec![E::rep(nm("sexpr"), M, 0, None)])])),
            rule("quote", E::seq2(s("'"), N, nm("sexpr"))),
            rule("atom", not(nm("nil"), E::rep(E::cho(vec![E::Rng('a', 'z'), E::Rng('É', 'Ö')]), N, 1, None))),
            rule("nil", E::seq2(E::Ins("nil".into()), N, E::neg(E::Rng('a', 'z')))),
            rule("vector", E::call("paren", vec![E::call("sep", vec![nm("sexpr"), s(",")])])),
            rule("matrix", E::call("sep", vec![E::call("sep", vec![nm("atom"), s(",")]), s(";")])),
        ],
        Some(many(s(" "))),
        Some(E::rep(ch(&[" ", "\n"]), N, 1, None)),
    );
    lists.files[0].triv_at = 3;
    v.push(("lists", lists, vec!["sexpr", "vector", "matrix"], vec!["(", ")", "a", "É", "nil", "Nil", "'", ",", ";", " ", "\n"]));
    v
}
impl B {
    /// Texts of up to `n` pieces, a few more or fewer by the number of pieces there are.
    fn world(&mut self, budget: usize) {
        for (name, mut h, entries, tokens) in world() {
            let mut n = 1;
            while tokens.len().pow(n as u32 + 1) <= budget {
                n += 1;
            }
            let mut level = vec![String::new()];
            let mut inputs = level.clone();
            for _ in 0..n {
                level = level.iter().flat_map(|p| tokens.iter().map(move |t| format!("{p}{t}"))).collect();
                inputs.extend(level.iter().cloned());
            }
            inputs.sort();
            inputs.dedup();
            let name = format!("grammar for {name}: {} texts of up to {n} pieces", inputs.len());
            let inputs = Arc::new(inputs);
            for e in entries {
                h.cases.push(case(e, &inputs));
            }
            self.add(name, vec![h]);
        }
    }
}

pub fn build(prop: &str, deep: bool) -> Vec<Space> {
    let mut b = B { spaces: vec![], next: 0 };
    let ab = |n| ins(&['a', 'b'], n);
    let k = if deep { 4 } else { 3 };
    if ["C01", "C02", "C04", "C05", "C06", "C08", "C24"].contains(&prop) {
        b.world(if prop == "C24" { 8_000 } else if deep { 300_000 } else { 30_000 });
    }
    large(&mut b, prop, deep);
    match prop {
        "C01" => {
            let (v, inputs) = deep_reps();
            let v = v.into_iter().step_by(3).collect();
            b.exprs("repetitions with large bounds", v, 40, &host_t(vec![rule("hr", s("a"))], Some(E::opt(s(" "))), Some(s("-"))), &inputs);
            let (h, a) = language();
            b.exprs("language", all(&a, k), 60, &h, &ab(4));
            let (h, a) = mixed();
            b.exprs("mixed", all(&a, k), 60, &h, &ins(&['a', 'b', ' '], 3));
        }
        "C02" => {
            let (h, v, inputs) = many_rules();
            b.exprs("many rules at one place", v, 100, &h, &inputs);
            let (h, a) = mixed();
            b.exprs("mixed", all(&a, k), 60, &h, &ins(&['a', 'b', ' '], 3));
            let (h, a) = reports();
            b.exprs("reports", all(&a, 3), 60, &h, &ins(&['a', 'b', '\n'], 3));
            let v = all(&stack(), 3).into_iter().map(|e| E::seq(vec![E::push(E::Any), e, E::PeekAll])).collect();
            b.exprs("stack", v, 60, &host(vec![rule("ha", s("a"))]), &ab(4));
        }
        "C03" => {
            // Two entries, something in between, and what is left on the stack made visible.
            let v = all(&stack(), k).into_iter().map(|e| E::seq(vec![E::push(E::Any), E::push(E::Any), e, E::PeekAll])).collect();
            b.exprs("two pushed, operated on, all peeked", v, 60, &host(vec![rule("ha", s("a"))]), &ab(if deep { 6 } else { 5 }));
        }
        "C04" => {
            let (h, a) = mixed();
            b.exprs("mixed", all(&a, k), 60, &h, &ins(&['a', 'b', ' '], 3));
            let (h, a) = reports();
            b.exprs("reports", all(&a, 3), 60, &h, &ins(&['a', 'b', '\n'], 3));
        }
        "C05" => {
            let (h, a) = mixed();
            b.exprs("mixed", all(&a, k), 60, &h, &ins(&['a', 'b', ' '], 3));
            let (h, a) = language();
            b.exprs("language", all(&a, 3), 60, &h, &ins(&['a', 'b', 'é'], 3));
        }
        "C24" => {
            let (h, a) = mixed();
            b.exprs("mixed", all(&a, k), 60, &h, &ins(&['a', 'b', ' '], 3));
            let (h, a) = language();
            b.exprs("language", all(&a, 3), 60, &h, &ins(&['a', 'b', 'é'], 3));
            let v = all(&stack(), 3).into_iter().map(|e| E::seq(vec![E::opt(E::push(E::Any)), e])).collect();
            b.exprs("stack", v, 60, &host(vec![rule("ha", s("a"))]), &ab(4));
            let (h, a) = imported();
            b.exprs("imported rules", all(&a, 3), 60, &h, &ins(&['a', 'b', ' ', '_'], 3));
            c15(&mut b, deep);
            c19(&mut b, deep);
        }
        "C06" => {
            towers(&mut b);
            let (h, a) = mixed();
            b.exprs("mixed", all(&a, k), 60, &h, &ins(&['a', 'b', ' '], 3));
            let (h, a) = imported();
            b.exprs("imported rules", all(&a, 3), 60, &h, &ins(&['a', 'b', ' ', '_'], 3));
        }
        "C07" => c07(&mut b, deep),
        "C08" => {
            let (h, v, inputs) = many_rules();
            b.exprs("many rules at one place", v, 100, &h, &inputs);
            towers(&mut b);
            let (h, a) = reports();
            b.exprs("reports", all(&a, k), 60, &h, &ins(&['a', 'b', '\n'], 3));
            let (h, a) = imported();
            b.exprs("imported rules", all(&a, 3), 60, &h, &ins(&['a', 'b', ' ', '_'], 3));
        }
        "C12" => c12(&mut b, deep),
        "C13" => c13(&mut b, deep),
        "C14" => c14(&mut b, deep),
        "C15" => c15(&mut b, deep),
        "C16" => c16(&mut b, deep),
        "C17" => c17(&mut b, deep),
        "C18" => c18(&mut b, deep),
        "C19" => c19(&mut b, deep),
        "C21" => c21(&mut b, deep),
        _ => panic!("no families for {prop}"),
    }
    b.spaces
}
