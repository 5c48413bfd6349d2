//! Documentation comments: they reach the item they are written before, and change nothing else (C23).
use crate::{generate, put, rank_text, Space2};
use quote::ToTokens;
use syn::{Attribute, Expr, Item, Lit, Meta};
use vref::evid::{Engine, Part};
use vref::par::each;

type Doc = &'static [&'static str];
/// Written after the slashes; what is meant.
const LINES: &[(&str, &str)] = &[
    ("", ""),
    (" ", ""),
    (" x", "x"),
    ("x", "x"),
    ("  y ", " y "),
    (" \"q\" \\n \\", "\"q\" \\n \\"),
    (" é 日 // ! /* */ {#}", "é 日 // ! /* */ {#}"),
    (" a = \"b\"", "a = \"b\""),
    ("\tt", "\tt"),
];
const DOCS: &[Doc] = &[&[], &[" x"], &["x", ""], &[" "], &["  y ", " \"q\" \\n \\"], &[" é 日 // ! /* */ {#}", " a = \"b\"", "\tt"], &[" x", " x"], &[" x", "", "", "x", " x"], &MANY];
const MANY: [&str; 14] = [" x", "", " a = \"b\"", " x", "\tt", "", "", " x", "  y ", "x", "x", " \"q\" \\n \\", " ", "  y "];
const NAMES: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "o", "q", "r"];
fn meant(d: Doc) -> Vec<String> {
    d.iter().map(|l| LINES.iter().find(|x| x.0 == *l).unwrap().1.trim().to_string()).collect()
}
/// Kinds of rules: text, is it in the enumeration?
const KINDS: &[(&str, bool)] = &[("NAME = \"a\"", true), ("NAME = _{ \"a\" }", true), ("NAME(p) = p - p", true), ("NAME(p) = _{ p }", false)];
const TRIVIA: &[&str] = &["", "~ = \" \"*", "^ = \"_\""];

struct One {
    gdoc: Doc,
    rules: Vec<(usize, Doc)>,
    trivia: (usize, Doc),
    comment: bool,
}
impl One {
    /// With or without the documentation.
    fn text(&self, docs: bool, imports: &str) -> String {
        let mut o = String::new();
        if docs {
            for l in self.gdoc {
                o += &format!("//!{l}\n");
            }
        }
        o += imports;
        let put = |o: &mut String, d: Doc, t: &str| {
            if docs {
                for l in d {
                    *o += &format!("///{l}\n");
                    if self.comment {
                        *o += "// no documentation\n\n";
                    }
                }
            }
            *o += t;
            *o += "\n";
        };
        if self.trivia.0 != 0 {
            put(&mut o, self.trivia.1, TRIVIA[self.trivia.0]);
        }
        for (i, (k, d)) in self.rules.iter().enumerate() {
            put(&mut o, d, &KINDS[*k].0.replace("NAME", NAMES[i]));
        }
        o
    }
    /// Documentation of the enumeration and of its variants.
    fn want(&self) -> (Vec<String>, Vec<(String, Vec<String>)>) {
        let v = self.rules.iter().enumerate().filter(|(_, r)| KINDS[r.0].1).map(|(i, r)| (NAMES[i].to_string(), meant(r.1)));
        (meant(self.gdoc), v.collect())
    }
}

fn take(attrs: &mut Vec<Attribute>) -> Vec<String> {
    let mut o = vec![];
    attrs.retain(|a| match &a.meta {
        Meta::NameValue(n) if n.path.is_ident("doc") => {
            match &n.value {
                Expr::Lit(l) => match &l.lit {
                    // White space around the text is free.
                    Lit::Str(s) => o.push(s.value().trim().to_string()),
                    _ => o.push("?".into()),
                },
                _ => o.push("?".into()),
            }
            false
        }
        _ => true,
    });
    o
}
type Enum = (Vec<String>, Vec<(String, Vec<String>)>);
/// Takes the documentation off every enumeration `Rule`.
pub fn enums(items: &mut [Item], at: &str, out: &mut Vec<(String, Enum)>) {
    for i in items {
        match i {
            Item::Enum(e) if e.ident == "Rule" => {
                let d = take(&mut e.attrs);
                let v = e.variants.iter_mut().map(|v| (v.ident.to_string().replace("r#", ""), take(&mut v.attrs))).collect();
                out.push((at.to_string(), (d, v)));
            }
            Item::Mod(m) => {
                let n = m.ident.to_string().replace("r#", "");
                if let Some((_, items)) = &mut m.content {
                    enums(items, &format!("{at}::{n}"), out)
                }
            }
            _ => (),
        }
    }
}
fn read(attr: &str) -> Result<(Vec<(String, Enum)>, String), String> {
    let s = generate(attr)?;
    let mut f = syn::parse_str::<syn::File>(&s).map_err(|e| format!("{e}: {s}"))?;
    let mut o = vec![];
    enums(&mut f.items, "", &mut o);
    Ok((o, f.to_token_stream().to_string()))
}

/// `sources`: one or two for the root; then the imported module, if any.
fn run(root: &[One], imported: Option<&One>, p: &mut Part) {
    let build = |docs: bool| {
        let imports = if let Some(m) = imported {
            let path = put("docm.pest", &m.text(docs, ""));
            let _ = path;
            "use docm as m\n"
        } else {
            ""
        };
        let mut a = String::new();
        for (i, r) in root.iter().enumerate() {
            // The last rules of the second source get names of their own.
            let mut t = r.text(docs, if i == 0 { imports } else { "" });
            if i == 1 {
                for (x, y) in [("\na = ", "\nd = "), ("\na(", "\nd("), ("\nb = ", "\ne = "), ("\nb(", "\ne(")] {
                    t = format!("\n{t}").replace(x, y)[1..].to_string();
                }
            }
            if imported.is_some() && i == 0 {
                let f = put("docr.pest", &t);
                a += &format!("#[grammar = {:?}]\n", f.to_string_lossy());
            } else {
                a += &format!("#[grammar_inline = {t:?}]\n");
            }
        }
        a
    };
    let text: String = root.iter().map(|r| r.text(true, "")).collect::<Vec<_>>().join("//////\n") + &imported.map_or(String::new(), |m| format!("// imported:\n{}", m.text(true, "")));
    let key = || format!("grammar {text:?}");
    let rank = rank_text(&text);
    p.states += 1;
    p.evaluations += 1;
    p.traces += 1;
    p.transitions += root.iter().chain(imported).map(|r| 1 + r.rules.len() as u64).sum::<u64>();
    let (with, without) = (read(&build(true)), read(&build(false)));
    let ((with, rest), (_, rest0)) = match (with, without) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => {
            let e = [a.err(), b.err()].into_iter().flatten().next().unwrap();
            p.viol(rank, key, || format!("rejected: {e}"));
            return;
        }
    };
    let mut d: Enum = (vec![], vec![]);
    for (i, r) in root.iter().enumerate() {
        let (a, b) = r.want();
        d.0.extend(a);
        d.1.extend(b.into_iter().map(|(n, x)| (if i == 0 { n } else { ["d", "e", "f"][(n.as_bytes()[0] - b'a') as usize].into() }, x)));
    }
    let mut want = vec![(String::new(), d)];
    if let Some(m) = imported {
        want.push(("m".into(), m.want()));
    }
    let any = want.iter().any(|w| !w.1 .0.is_empty() || w.1 .1.iter().any(|v| !v.1.is_empty()));
    p.outcome(if any { "documented" } else { "not documented" });
    p.nontrivial += any as u64;
    p.sample(3, key);
    for (n, w) in &want {
        let here = with.iter().find(|x| if n.is_empty() { x.0.is_empty() } else { x.0.ends_with(&format!("::{n}")) });
        let Some((_, e)) = here else {
            p.viol(rank, key, || format!("no enumeration of rules for {n:?}: {with:?}"));
            continue;
        };
        if e.0 != w.0 {
            p.viol(rank, key, || format!("documentation of the enumeration {n:?}: reference {:?}, real {:?}", w.0, e.0));
        }
        for v in &e.1 {
            let x = w.1.iter().find(|x| x.0 == v.0).map_or(vec![], |x| x.1.clone());
            if v.1 != x {
                p.viol(rank, key, || format!("documentation of {n}::{}: reference {x:?}, real {:?}", v.0, v.1));
            }
        }
        for v in &w.1 {
            if !e.1.iter().any(|x| x.0 == v.0) {
                p.viol(rank, key, || format!("{n}::{} is not in the enumeration", v.0));
            }
        }
    }
    if rest != rest0 {
        p.viol(rank, key, || "documentation changes the rest of the program".into());
    }
}

fn digits(mut i: usize, dims: &[usize]) -> Vec<usize> {
    dims.iter()
        .map(|d| {
            let x = i % d;
            i /= d;
            x
        })
        .collect()
}

pub fn all(deep: bool, e: &mut Engine) {
    let (nd, nk) = (DOCS.len(), KINDS.len());
    let mut add = |name: &str, dims: Vec<usize>, f: Space2| {
        let n = dims.iter().product();
        let parts = each(n, 16, |i| format!("{name} {:?}", digits(i, &dims)), |i, p| f(&digits(i, &dims), p));
        e.add(format!("{name}: {dims:?}"), parts);
    };
    let one = |g: usize, r: &[(usize, usize)], t: (usize, usize), c: usize| One {
        gdoc: DOCS[g],
        rules: r.iter().map(|x| (x.0, DOCS[x.1])).collect(),
        trivia: (t.0, DOCS[t.1]),
        comment: c == 1,
    };
    add("one rule: kind, its documentation, the grammar's, comments", vec![nk, nd, nd, 2], Box::new(move |d, p| run(&[one(d[2], &[(d[0], d[1])], (0, 0), d[3])], None, p)));
    add("two rules: kinds, documentation of rules and grammar", vec![nk, nk, nd, nd, if deep { nd } else { 2 }], Box::new(move |d, p| run(&[one(d[4], &[(d[0], d[2]), (d[1], d[3])], (0, 0), 0)], None, p)));
    add("trivia and a rule", vec![2, nd, nk, nd], Box::new(move |d, p| run(&[one(0, &[(d[2], d[3])], (d[0] + 1, d[1]), 0)], None, p)));
    add("two sources", vec![nd, nd, nd, nd, if deep { nk } else { 1 }], Box::new(move |d, p| run(&[one(d[0], &[(0, d[1])], (0, 0), 0), one(d[2], &[(d[4], d[3])], (0, 0), 0)], None, p)));
    // Which of the rules are documented: one, two, all but one, every other.
    let sets: Vec<Vec<usize>> = (0..14usize)
        .flat_map(|i| [vec![i], vec![i, (i + 1) % 14], vec![i, (i + 5) % 14], (0..14).filter(|k| *k != i).collect(), (0..14).filter(|k| k % 2 == i % 2).collect()])
        .collect();
    add("fourteen rules", vec![sets.len(), nd, nk], Box::new(move |d, p| {
        let rs: Vec<(usize, usize)> = (0..14).map(|i| (if i % 3 == 1 { d[2] } else { i % 2 }, if sets[d[0]].contains(&i) { (d[1] + i * (d[0] % 2)) % nd } else { 0 })).collect();
        run(&[one(d[1], &rs, (0, 0), 0)], None, p)
    }));
    add("an imported file", vec![nd, nd, nd, nd, if deep { nk } else { 2 }], Box::new(move |d, p| run(&[one(d[0], &[(0, d[1])], (0, 0), 0)], Some(&one(d[2], &[(d[4], d[3])], (0, 0), 0)), p)));
    if deep {
        add("three rules", vec![nk, nk, nk, nd, nd, nd], Box::new(move |d, p| run(&[one(1, &[(d[0], d[3]), (d[1], d[4]), (d[2], d[5])], (0, 0), 0)], None, p)));
    }
}
