//! `famgen PROP TIER DIR SHARDS`: writes a workspace of programs with the derived grammars.
use fams::src::*;
use std::fmt::Write;
use std::fs;
use std::path::Path;

fn pounds(s: &str) -> String {
    let mut n = 1;
    while s.contains(&format!("\"{}", "#".repeat(n))) {
        n += 1;
    }
    "#".repeat(n)
}
fn inline(t: &str) -> String {
    let p = pounds(t);
    format!("#[grammar_inline = r{p}\"{t}\"{p}]\n")
}
fn put(p: &Path, t: &str) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    if fs::read_to_string(p).ok().as_deref() != Some(t) {
        fs::write(p, t).unwrap();
    }
}

fn gram(o: &mut String, g: usize, s: &Src, dir: &Path, parser: bool, value: bool) {
    let m = s.model();
    writeln!(o, "mod g{g} {{").unwrap();
    writeln!(o, "#[derive(pest3::Parser)]").unwrap();
    let file = |n: &str, t: &str| put(&dir.join(format!("g{g}/{n}")), t);
    for f in &s.files[1..] {
        file(&f.path, &f.text());
    }
    let root = &s.files[0];
    match &s.layout {
        // What is inline lies in the directory of the crate.
        Layout::Inline => o.push_str(&inline(&root.text().replace("HERE::", &format!("g{g}::")))),
        Layout::File => {
            file(&root.path, &root.text());
            writeln!(o, "#[grammar = \"g{g}/{}\"]", root.path).unwrap();
        }
        Layout::Split(n) => {
            let len = root.rules.len();
            for i in 0..*n {
                let t = root.part(len * i / n, len * (i + 1) / n, i == 0);
                if i % 2 == 0 {
                    file(&format!("part{i}.pest"), &t);
                    writeln!(o, "#[grammar = \"g{g}/part{i}.pest\"]").unwrap();
                } else {
                    o.push_str(&inline(&t));
                }
            }
        }
    }
    o.push_str(&s.attrs);
    writeln!(o, "\n{}", s.item.0).unwrap();
    // Accessors that may be missing.
    let mut names = s.names.clone();
    names.sort();
    names.dedup();
    if s.acc {
        writeln!(o, "pub trait Fb {{").unwrap();
        for n in &names {
            writeln!(o, "fn {}(&self) -> famrt::Absent {{ famrt::Absent }}", raw(n)).unwrap();
        }
        writeln!(o, "}}\nimpl<T> Fb for T {{}}").unwrap();
    }
    for (k, r, id) in &m.rules {
        let md = &m.mods[*k];
        let rs = &s.files[md.file].rules[*r];
        let mut p = md.path.clone();
        p.push(rs.name.clone());
        let path = s.rust(&p.join("::"));
        let mac = if s.uni.contains(&rs.name) { "node_c" } else { "node" };
        let args: String = (0..rs.params.len()).map(|i| format!(", T{i}")).collect();
        writeln!(o, "famrt::{mac}!({id}, {path}{args});").unwrap();
    }
    let (sq, ch) = s.widths(&m);
    for n in sq.into_iter().filter(|n| *n > 16) {
        let a: Vec<String> = (0..n).map(|i| format!("T{i}, U{i}")).collect();
        let f: Vec<String> = (0..n).map(|i| format!("field_{i} T{i} U{i}")).collect();
        writeln!(o, "famrt::wide_seq!(generics::Sequence{n}<{}>; {});", a.join(", "), f.join(", ")).unwrap();
    }
    for n in ch.into_iter().filter(|n| *n > 16) {
        let a: Vec<String> = (0..n).map(|i| format!("T{i}")).collect();
        let f: Vec<String> = (0..n).map(|i| format!("{i} generics::Choice{n}::Choice{i}, T{i} @ choice_{i}")).collect();
        writeln!(o, "famrt::wide_cho!(generics::Choice{n}<{}>; {});", a.join(", "), f.join(", ")).unwrap();
    }
    let mut levels = String::new();
    let obs = if parser || s.item.1 != "P" { format!("obs_p::<{}, ", s.item.1) } else { "obs::<".to_string() };
    writeln!(o, "pub static CASES: &[famrt::Run] = &[").unwrap();
    for (i, c) in s.cases.iter().enumerate() {
        let id = m.gram.rules[m.entries[i].0].base.unwrap_or(m.entries[i].0);
        let silent = m.gram.rules[id].silent;
        let args = if c.args.is_empty() {
            String::new()
        } else {
            format!("<{}>", c.args.iter().map(|a| s.rust(a)).collect::<Vec<_>>().join(", "))
        };
        let ty = format!("{}{args}", s.rust(&c.entry));
        let ty = if args.is_empty() { ty } else { ty.replacen('<', "::<", 1).replacen("::<", "<", 1) };
        let pairs = |r: &str| match (s.pairs, silent) {
            (false, _) => "famrt::no_pairs".to_string(),
            (true, true) => format!("famrt::pairs_silent::<{r}, _>"),
            (true, false) => format!("famrt::pairs::<{r}, _>"),
        };
        let acc: String = if s.acc {
            names.iter().map(|n| format!("({n:?}, famrt::Shape::sh(&x.{}()))", raw(n))).collect::<Vec<_>>().join(", ")
        } else {
            String::new()
        };
        if value {
            writeln!(o, "|s| famrt::obs_v::<Rule, {ty}>(s, {}, |a: &{ty}, b: &{ty}| a.content == b.content),", pairs("Rule")).unwrap();
            continue;
        }
        writeln!(o, "|s| famrt::{obs}Rule, {ty}>(s, {}, |x: &{ty}| vec![{acc}]),", pairs("Rule")).unwrap();
        // The same rule as a rule of the imported modules it lies in.
        if c.args.is_empty() {
            let path: Vec<&str> = c.entry.split("::").collect();
            for n in 1..path.len() {
                let mut r = String::new();
                for m in &path[..n] {
                    r.push_str(&format!("{}::{}::", s.rules_mod, raw(m)));
                }
                r.push_str("Rule");
                writeln!(levels, "({i}, {n}, |s| famrt::obs::<{r}, {ty}>(s, {}, |x: &{ty}| vec![])),", pairs(&r)).unwrap();
            }
        }
    }
    writeln!(o, "];\npub static LEVELS: &[(usize, usize, famrt::Run)] = &[\n{levels}];\n}}").unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let fam = fams::defs::build(&a[1], a[2] == "thorough");
    let dir = Path::new(&a[3]);
    if a.len() > 5 {
        // Just list.
        for sp in &fam {
            println!("{}: {} grammars, {} cases, {} inputs", sp.name, sp.grams.len(), sp.grams.iter().map(|g| g.1.cases.len()).sum::<usize>(), sp.grams.iter().flat_map(|g| &g.1.cases).map(|c| c.inputs.len()).sum::<usize>());
        }
        return;
    }
    let n: usize = a[4].parse().unwrap();
    let manifest = std::env::var("FAM_VERIF").unwrap_or("/verif".into());
    let mut members = vec![];
    let mut body = vec![(String::new(), vec![]); n];
    // Grammars in turn, heavy groups spread evenly.
    let mut load = vec![0usize; n];
    let mut place = std::collections::BTreeMap::new();
    for sp in &fam {
        for (g, s) in &sp.grams {
            let k = *place.entry(s.group).or_insert_with(|| (0..n).min_by_key(|i| load[*i]).unwrap());
            load[k] += s.cases.len() + 3;
            let d = dir.join(format!("s{k}"));
            gram(&mut body[k].0, *g, s, &d, a[1] == "C04", a[1] == "C24");
            body[k].1.push(*g);
        }
    }
    for (k, (t, gs)) in body.iter().enumerate() {
        if gs.is_empty() {
            continue;
        }
        let d = dir.join(format!("s{k}"));
        members.push(format!("\"s{k}\""));
        put(
            &d.join("Cargo.toml"),
            &format!(
                "[package]\nname = \"fam-{}-{}-s{k}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nfamrt = {{ path = \"{manifest}/mc/famrt\" }}\npest3 = {{ path = \"/repo/pest\", features = [\"derive\"] }}\n",
                a[1], a[2]
            ),
        );
        let table: Vec<String> = gs.iter().map(|g| format!("({g}, g{g}::CASES, g{g}::LEVELS)")).collect();
        let t = format!("#![allow(warnings)]\n{t}\nfn main() {{ famrt::main(&[{}]) }}\n", table.join(", "));
        put(&d.join("src/main.rs"), &t);
    }
    put(
        &dir.join("Cargo.toml"),
        &format!(
            "[workspace]\nresolver = \"2\"\nmembers = [{}]\n\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\ndebug-assertions = true\noverflow-checks = true\n\n[profile.dev.package.\"*\"]\nopt-level = 2\n\n[profile.dev.build-override]\nopt-level = 1\n",
            members.join(", ")
        ),
    );
    put(&dir.join("Cargo.lock"), &fs::read_to_string(format!("{manifest}/mc/Cargo.lock")).unwrap());
    println!("{}", members.len());
}
