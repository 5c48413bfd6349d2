//! What a derive reads (C16): several sources, where they are looked for, and that the program
//! depends on all of the files, so that it is built again when one of them changes.
use crate::{docs, scratch};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use syn::visit::Visit;
use vref::evid::{Engine, Part};
use vref::par::{each, last_panic};

/// Files that a program includes, and the program.
pub fn derive(attr: &str) -> Result<(Vec<PathBuf>, String), String> {
    let src = format!("{attr}\nstruct P;");
    let r = catch_unwind(AssertUnwindSafe(|| {
        let ts: proc_macro2::TokenStream = src.parse().unwrap();
        pest3_generator::typed::derive_typed_parser(ts, true, true).to_string()
    }))
    .map_err(|_| last_panic())?;
    if r.contains("compile_error !") {
        return Err(r);
    }
    struct Find(Vec<PathBuf>);
    impl Visit<'_> for Find {
        fn visit_macro(&mut self, m: &syn::Macro) {
            if m.path.segments.last().is_some_and(|s| s.ident == "include_str" || s.ident == "include_bytes") {
                if let Ok(s) = m.parse_body::<syn::LitStr>() {
                    self.0.push(s.value().into());
                }
            }
        }
    }
    let mut f = Find(vec![]);
    f.visit_file(&syn::parse_str(&r).map_err(|e| format!("not a Rust program: {e}"))?);
    Ok((f.0, r))
}
/// Are all of these files watched, and nothing that does not exist?
pub fn watched(real: &[PathBuf], want: &[PathBuf]) -> Result<(), String> {
    let canon = |q: &PathBuf| std::env::current_dir().unwrap().join(q).canonicalize().ok();
    let real: BTreeSet<Option<PathBuf>> = real.iter().map(canon).collect();
    if real.contains(&None) {
        return Err("the program depends on a file that is not there".into());
    }
    match want.iter().find(|w| !real.contains(&canon(w))) {
        Some(w) => Err(format!("the program does not depend on {}: {real:?}", w.file_name().unwrap().to_string_lossy())),
        None => Ok(()),
    }
}

/// One kind of source; `#` is the number of the source.
struct Kind {
    what: &'static str,
    /// The attribute's value; none for a text.
    path: Option<&'static str>,
    /// Files: path, text.
    files: &'static [(&'static str, &'static str)],
    /// Text.
    text: &'static str,
    /// Rules and modules that come of it; none if it is refused.
    gives: Option<(&'static [&'static str], &'static [&'static str])>,
    /// Files that are read.
    reads: &'static [&'static str],
}
const KINDS: &[Kind] = &[
    Kind { what: "a text", path: None, files: &[], text: "t# = \"t\"\n", gives: Some((&["t#"], &[])), reads: &[] },
    Kind {
        what: "a file at the root",
        path: Some("k1_#.pest"),
        files: &[("k1_#.pest", "r# = \"r\"\n")],
        text: "",
        gives: Some((&["r#"], &[])),
        reads: &["k1_#.pest"],
    },
    Kind {
        what: "a file in src",
        path: Some("k2_#.pest"),
        files: &[("src/k2_#.pest", "s# = \"s\"\ns#b = s#\n")],
        text: "",
        gives: Some((&["s#", "s#b"], &[])),
        reads: &["src/k2_#.pest"],
    },
    Kind {
        what: "a file at the root and in src",
        path: Some("k3_#.pest"),
        files: &[("k3_#.pest", "r# = \"r\"\n"), ("src/k3_#.pest", "s# = \"s\"\n")],
        text: "",
        gives: Some((&["r#"], &[])),
        reads: &["k3_#.pest"],
    },
    Kind { what: "a file that is nowhere", path: Some("k4_#.pest"), files: &[], text: "", gives: None, reads: &[] },
    Kind {
        what: "a file in a directory",
        path: Some("d/k5_#.pest"),
        files: &[("d/k5_#.pest", "r# = \"r\"\n"), ("src/k5_#.pest", "s# = \"s\"\n"), ("k5_#.pest", "o# = \"o\"\n")],
        text: "",
        gives: Some((&["r#"], &[])),
        reads: &["d/k5_#.pest"],
    },
    Kind {
        what: "a text that imports",
        path: None,
        files: &[("k6_#.pest", "i = \"i\"\n"), ("src/k6_#.pest", "j = \"j\"\n")],
        text: "use k6_# as m#\nt# = m#::i\n",
        gives: Some((&["t#"], &["m#"])),
        reads: &["k6_#.pest"],
    },
    Kind {
        what: "a file that imports its neighbour",
        path: Some("d/k7_#.pest"),
        files: &[("d/k7_#.pest", "use k7i_#\nr# = \"r\"\n"), ("d/k7i_#.pest", "i = \"i\"\n"), ("k7i_#.pest", "j = \n")],
        text: "",
        gives: Some((&["r#"], &["k7i_#"])),
        reads: &["d/k7_#.pest", "d/k7i_#.pest"],
    },
    Kind {
        what: "a file in src that imports through two",
        path: Some("e/k8_#.pest"),
        files: &[
            ("src/e/k8_#.pest", "use super::k8i_# as m#\nr# = \"r\"\n"),
            ("src/k8i_#.pest", "use k8::k8j_# as n\ni = n::j\n"),
            ("src/k8/k8j_#.pest", "j = \"j\"\n"),
        ],
        text: "",
        gives: Some((&["r#"], &["m#"])),
        reads: &["src/e/k8_#.pest", "src/k8i_#.pest", "src/k8/k8j_#.pest"],
    },
    Kind {
        what: "a file that imports what others import",
        path: Some("k9_#.pest"),
        files: &[("k9_#.pest", "use shared as m#\nr# = m#::i\n"), ("shared.pest", "use d::shared2 as n\ni = n::j\n"), ("d/shared2.pest", "j = \"j\"\n")],
        text: "",
        gives: Some((&["r#"], &["m#"])),
        reads: &["k9_#.pest", "shared.pest", "d/shared2.pest"],
    },
    Kind {
        what: "the same, from a text",
        path: None,
        files: &[],
        text: "use d::shared2 as m#\nt# = m#::j\n",
        gives: Some((&["t#"], &["m#"])),
        reads: &["d/shared2.pest"],
    },
    Kind {
        what: "a file named in a roundabout way",
        path: Some("src/../d/./k11_#.pest"),
        files: &[("d/k11_#.pest", "use super::k11i_# as m#\nr# = \"r\"\n"), ("k11i_#.pest", "i = \"i\"\n")],
        text: "",
        gives: Some((&["r#"], &["m#"])),
        reads: &["d/k11_#.pest", "k11i_#.pest"],
    },
    Kind { what: "a directory", path: Some("d"), files: &[], text: "", gives: None, reads: &[] },
    Kind { what: "a file with a mistake", path: Some("k13_#.pest"), files: &[("k13_#.pest", "r# = \n")], text: "", gives: None, reads: &[] },
    Kind {
        what: "a file with another ending",
        path: Some("k14_#.peg"),
        files: &[("k14_#.peg", "use k14i_# as m#\nr# = \"r\"\n"), ("k14i_#.pest", "i = \"i\"\n")],
        text: "",
        gives: Some((&["r#"], &["m#"])),
        reads: &["k14_#.peg", "k14i_#.pest"],
    },
    Kind {
        what: "a file of nothing but comments",
        path: Some("k15_#.pest"),
        files: &[("k15_#.pest", "//! Nothing.\n")],
        text: "",
        gives: None,
        reads: &["k15_#.pest"],
    },
    Kind {
        what: "a file named in full",
        path: Some("!k16_#.pest"),
        files: &[("k16_#.pest", "r# = \"r\"\n")],
        text: "",
        gives: Some((&["r#"], &[])),
        reads: &["k16_#.pest"],
    },
];

fn check(of: &[usize], p: &mut Part) {
    let root = scratch();
    let num = |s: &str, k: usize| s.replace('#', &k.to_string());
    let mut attr = String::new();
    let (mut rules, mut mods, mut reads, mut bad) = (vec![], vec![], vec![], false);
    for (k, o) in of.iter().enumerate() {
        let o = &KINDS[*o];
        attr += &match o.path {
            None => format!("#[grammar_inline = {:?}]\n", num(o.text, k)),
            Some(q) => match q.strip_prefix('!') {
                Some(q) => format!("#[grammar = {:?}]\n", root.join(num(q, k))),
                None => format!("#[grammar = {:?}]\n", num(q, k)),
            },
        };
        match o.gives {
            Some((r, m)) => {
                rules.extend(r.iter().map(|s| num(s, k)));
                mods.extend(m.iter().map(|s| num(s, k)));
            }
            None => bad = true,
        }
        reads.extend(o.reads.iter().map(|s| root.join(num(s, k))));
    }
    let say = || of.iter().map(|o| KINDS[*o].what).collect::<Vec<_>>().join(", ");
    let rank = of.len() as u64;
    p.states += 1;
    p.traces += 1;
    p.evaluations += 1;
    p.transitions += of.len() as u64;
    match (bad, derive(&attr)) {
        (true, Err(_)) => p.outcome("rejected"),
        (true, Ok(_)) => p.viol(rank, say, || "accepted".into()),
        (false, Err(e)) => p.viol(rank, say, || format!("rejected: {e}")),
        (false, Ok((files, text))) => {
            p.outcome("accepted");
            p.nontrivial += (reads.len() > 1) as u64;
            p.sample(6, say);
            if let Err(e) = watched(&files, &reads) {
                p.viol(rank, say, || e);
            }
            let mut f = syn::parse_str::<syn::File>(&text).unwrap();
            let mut all = vec![];
            docs::enums(&mut f.items, "", &mut all);
            let Some((_, e)) = all.iter().find(|(n, _)| n.matches("::").count() <= 1) else {
                return p.viol(rank, say, || "no enumeration of rules".into());
            };
            let got: Vec<&String> = e.1.iter().map(|v| &v.0).collect();
            let want: Vec<String> = ["EOI".to_string()].into_iter().chain(rules).chain(mods).collect();
            if got != want.iter().collect::<Vec<_>>() {
                p.viol(rank, say, || format!("rules and modules: reference {want:?}, real {got:?}"));
            }
        }
    }
}

pub fn run(deep: bool, e: &mut Engine) {
    let root = scratch();
    let write = |path: &Path, text: &str| {
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, text).unwrap();
    };
    let most = if deep { 4 } else { 3 };
    for k in 0..most {
        for (n, t) in KINDS.iter().flat_map(|x| x.files) {
            write(&root.join(n.replace('#', &k.to_string())), &t.replace('#', &k.to_string()));
        }
    }
    let n = KINDS.len();
    let dims: Vec<usize> = (1..=most as u32).map(|m| n.pow(m)).collect();
    let get = |mut i: usize| {
        let mut m = 0;
        while i >= dims[m] {
            i -= dims[m];
            m += 1;
        }
        (0..=m).map(|k| i / n.pow(k as u32) % n).collect::<Vec<_>>()
    };
    let say = |i: usize| get(i).iter().map(|o| KINDS[*o].what).collect::<Vec<_>>().join(", ");
    let parts = each(dims.iter().sum(), 16, say, |i, p| check(&get(i), p));
    e.add(format!("up to {most} sources of {n} kinds"), parts);
}

/// Every time the same program (C21), of several sources and of many imports.
pub fn again(deep: bool, e: &mut Engine) {
    let root = scratch();
    let write = |path: &Path, text: &str| {
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, text).unwrap();
    };
    for k in 0..3 {
        for (n, t) in KINDS.iter().flat_map(|x| x.files) {
            write(&root.join(n.replace('#', &k.to_string())), &t.replace('#', &k.to_string()));
        }
    }
    let most = if deep { 14 } else { 7 };
    for n in 0..most {
        write(&root.join(format!("same/i{n}.pest")), &format!("use i{}\nr = \"{n}\"\ns(x) = x - r\n", n + 1));
    }
    write(&root.join(format!("same/i{most}.pest")), "r = \"r\"\ns(x) = x - r\n");
    let num = |s: &str, k: usize| s.replace('#', &k.to_string());
    let n = KINDS.len();
    let mut attrs = vec![];
    for i in 0..n * n * n {
        let of = [i % n, i / n % n, i / n / n];
        // Up to two, and all of three with an import each.
        if i >= n * n && !(deep || of.iter().all(|o| KINDS[*o].reads.len() > 1)) {
            continue;
        }
        attrs.push(
            of.iter()
                .enumerate()
                .map(|(k, o)| match KINDS[*o].path {
                    None => format!("#[grammar_inline = {:?}]\n", num(KINDS[*o].text, k)),
                    Some(q) => match q.strip_prefix('!') {
                        Some(q) => format!("#[grammar = {:?}]\n", root.join(num(q, k))),
                        None => format!("#[grammar = {:?}]\n", num(q, k)),
                    },
                })
                .collect::<String>(),
        );
    }
    // Imports side by side, and one after another.
    for k in 0..=most {
        let all: String = (0..k).map(|i| format!("use same::i{i}\n")).collect();
        attrs.push(format!("#[grammar_inline = {:?}]", format!("use same::i{} as last\n{all}r = last::s(last::r)\n", most)));
        attrs.push(format!("#[grammar = \"same/i{k}.pest\"]"));
    }
    let parts = each(attrs.len(), 4, |i| attrs[i].clone(), |i, p| {
        let first = derive(&attrs[i]);
        p.states += 1;
        p.evaluations += 1;
        for _ in 0..4 {
            p.traces += 1;
            p.transitions += 1;
            let next = derive(&attrs[i]);
            let eq = match (&first, &next) {
                (Ok(x), Ok(y)) => x == y,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !eq {
                p.viol(attrs[i].len() as u64, || format!("two programs for {}", attrs[i]), || format!("{first:?}\n{next:?}"));
            }
        }
        match first {
            Ok(x) => {
                p.nontrivial += (x.0.len() > 1) as u64;
                p.sample(4, || attrs[i].clone());
                p.outcome("accepted each time")
            }
            Err(_) => p.outcome("rejected each time"),
        }
    });
    e.add(format!("the same program of several sources and of up to {most} imports"), parts);
}
