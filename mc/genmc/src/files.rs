//! Grammars in several files: which modules come out, and from which files (C16).
use crate::{put, DIR};
use pest3_meta::parser::{parse, GrammarModule, Import};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use vref::evid::{Engine, Part};
use vref::par::each;

/// Where the files lie.
pub const LAYOUTS: &[[&str; 4]] = &[
    ["", "", "", ""],
    ["", "", "d", "d/e"],
    ["r", "", "d", "r"],
    ["a/b", "a", "a/b/c", "a/d"],
    // In directories whose names look like something else.
    ["x.pest!", "x.pest!", "x.pest!d", "x.pest!d/e"],
    ["v1.0 é/super!", "v1.0 é/super!d", "v1.0 é/super!", "v1.0 é/super!d"],
];

/// Files of one name in several directories.
const TWINS: [&str; 4] = ["|f", "d|f", "d/e|f", "e|f"];

/// Directory and name of file i.
fn split(layout: &[&'static str; 4], i: usize) -> (&'static str, String) {
    match layout[i].split_once('|') {
        Some((d, n)) => (d, n.to_string()),
        None => (layout[i], format!("f{i}")),
    }
}
/// The path of file j as written in file i; in a roundabout way if `round`.
pub fn spell(layout: &[&'static str; 4], i: usize, j: usize, round: bool) -> String {
    // What is before the `!` cannot be written in a grammar.
    let secs = |s: &str| s.rsplit('!').next().unwrap().split('/').filter(|s| !s.is_empty()).map(String::from).collect::<Vec<_>>();
    let (a, b) = (secs(split(layout, i).0), secs(split(layout, j).0));
    let mut k = 0;
    while !round && k < a.len() && k < b.len() && a[k] == b[k] {
        k += 1;
    }
    let mut v = vec!["super".to_string(); a.len() - k];
    v.extend(b[k..].iter().cloned());
    v.push(split(layout, j).1);
    v.join("::")
}
pub fn file(layout: &[&'static str; 4], i: usize) -> String {
    match split(layout, i) {
        ("", n) => format!("{n}.pest"),
        (d, n) => format!("{}/{n}.pest", d.replace('!', "/")),
    }
}
/// Imports of each file: target, alias, whether it is written out.
type Net = Vec<Vec<(usize, String, bool)>>;

struct Case {
    layout: [&'static str; 4],
    net: Net,
    /// This file cannot be read as a grammar.
    sick: Option<usize>,
    /// This file is not there.
    gone: Option<usize>,
    round: bool,
}
impl Case {
    fn text(&self, i: usize) -> String {
        let mut o = String::new();
        // Some imports follow the first rule.
        for (k, (j, a, w)) in self.net[i].iter().enumerate() {
            if k == 1 {
                o.push_str(&format!("r{i} = \"{i}\"\n"));
            }
            let s = spell(&self.layout, i, *j, self.round && k % 2 == 0);
            o.push_str(&if *w { format!("use {s} as {a}\n") } else { format!("use {s}\n") });
        }
        if self.net[i].len() < 2 {
            o.push_str(&format!("r{i} = \"{i}\"\n"));
        }
        o.push_str(&format!("same(x) = x - \"{i}\"\n"));
        if self.sick == Some(i) {
            o.push_str("oops = \n");
        }
        o
    }
    fn reach(&self, i: usize, seen: &mut BTreeSet<usize>) {
        for (j, ..) in &self.net[i] {
            if seen.insert(*j) && self.gone != Some(*j) {
                self.reach(*j, seen);
            }
        }
    }
    fn cyclic(&self, i: usize, at: &mut Vec<usize>) -> bool {
        if at.contains(&i) {
            return true;
        }
        at.push(i);
        let c = self.gone != Some(i) && self.net[i].iter().any(|(j, ..)| self.cyclic(*j, at));
        at.pop();
        c
    }
    fn say(&self) -> String {
        let f: Vec<String> = (0..self.net.len())
            .map(|i| {
                let s = if self.gone == Some(i) { " (missing)" } else { "" };
                format!("{}{s}: {}", file(&self.layout, i), self.text(i).trim_end().replace('\n', "; "))
            })
            .collect();
        f.join(" // ")
    }
    fn same(&self, i: usize, m: &GrammarModule, steps: &mut u64) -> Result<(), String> {
        *steps += 1;
        let names: Vec<String> = m.rules.iter().map(|r| format!("{} = {}", r.name, r.node)).collect();
        let want = vec![format!("r{i} = \"{i}\""), format!("same = (x - \"{i}\")")];
        if names != want {
            return Err(format!("file {i} has the rules {names:?}"));
        }
        if m.imports.len() != self.net[i].len() {
            return Err(format!("file {i} has {} imports", m.imports.len()));
        }
        for (imp, (j, a, _)) in m.imports.iter().zip(&self.net[i]) {
            match imp {
                Import::File(n, m) if n == a => self.same(*j, m, steps)?,
                Import::File(n, _) | Import::Builtin(n, _) => return Err(format!("file {i} imports {n} instead of {a}")),
            }
        }
        Ok(())
    }
    fn check(&self, p: &mut Part) {
        let l = &self.layout;
        let n = self.net.len();
        let mut root = PathBuf::new();
        for i in (0..n).rev() {
            // The missing file has a name that nothing else has.
            if self.gone != Some(i) {
                root = put(&file(l, i), &self.text(i));
            }
        }
        let mut reach = BTreeSet::new();
        self.reach(0, &mut reach);
        let bad = self.cyclic(0, &mut vec![])
            || self.sick.is_some_and(|s| s == 0 || reach.contains(&s))
            || self.gone.is_some_and(|s| reach.contains(&s));
        let real = parse(&self.text(0), &root);
        p.states += 1 + reach.len() as u64;
        p.traces += 1;
        p.evaluations += 1;
        let rank = self.say().len() as u64;
        match (bad, real) {
            (true, Err(e)) => {
                p.transitions += 1;
                p.outcome("rejected");
                let e = e.to_string();
                // With just one mistake the message says where it is.
                let k = self.sick.or(self.gone);
                if let Some(k) = k {
                    if k != 0 && !self.cyclic(0, &mut vec![]) && !e.contains(&file(l, k).rsplit('/').next().unwrap().to_string()) {
                        p.viol(rank, || format!("an error that does not name the file: {}", self.say()), || e.clone());
                    }
                }
            }
            (true, Ok(_)) => p.viol(rank, || format!("accepted: {}", self.say()), || "a cycle, a file that is missing or that has a mistake".into()),
            (false, Err(e)) => p.viol(rank, || format!("rejected: {}", self.say()), || e.to_string()),
            (false, Ok(m)) => {
                p.outcome("accepted");
                let mut steps = 0;
                if let Err(e) = self.same(0, &m, &mut steps) {
                    p.viol(rank, || format!("other modules: {}", self.say()), || e.clone());
                }
                p.transitions += steps;
                p.nontrivial += (steps > 2) as u64;
                let canon = |q: &Path| q.canonicalize().unwrap_or(q.to_path_buf());
                let deps: BTreeSet<PathBuf> = m.dependencies.iter().map(|d| canon(d)).collect();
                let want: BTreeSet<PathBuf> = reach.iter().map(|i| canon(&DIR.with(|d| d.join(file(l, *i))))).collect();
                if deps != want {
                    p.viol(rank, || format!("other files to watch: {}", self.say()), || format!("{deps:?} instead of {want:?}"));
                }
                let all: Vec<PathBuf> = want.iter().cloned().chain([canon(&root)]).collect();
                let there = crate::sources::derive(&format!("#[grammar = {root:?}]"));
                if let Err(e) = there.and_then(|(f, _)| crate::sources::watched(&f, &all)) {
                    p.viol(rank, || format!("derived: {}", self.say()), || e);
                }
                p.sample(6, || self.say());
            }
        }
    }
}

/// Remove what an earlier case of this worker may have left where a file has to be missing.
fn drop_file(l: &[&'static str; 4], i: usize) {
    let path = DIR.with(|d| d.join(file(l, i)));
    let _ = std::fs::remove_file(path);
    crate::forget(&file(l, i));
}

pub fn run(deep: bool, e: &mut Engine) {
    // Which file imports which, at most once each.
    let pairs: Vec<(usize, usize)> = (0..4).flat_map(|i| (0..4).map(move |j| (i, j))).filter(|(i, j)| deep || i != j).collect();
    let graphs = 1usize << pairs.len();
    let dims = [graphs, LAYOUTS.len(), if deep { 1 } else { 5 }];
    let get = |mut i: usize| {
        // Neighbours differ in few files.
        let k = i % dims[2];
        i /= dims[2];
        let (g, l) = (i % graphs, i / graphs);
        let mut net: Net = vec![vec![]; 4];
        for (b, (i, j)) in pairs.iter().enumerate() {
            if g >> b & 1 == 1 {
                net[*i].push((*j, format!("f{j}"), false));
            }
        }
        Case { layout: LAYOUTS[l], net, sick: [None, Some(0), Some(1), Some(2), Some(3)][k], gone: None, round: g % 2 == 1 }
    };
    let parts = each(dims.iter().product(), 64, |i| get(i).say(), |i, p| get(i).check(p));
    e.add(format!("import graphs of four files: {dims:?}"), parts);
    // The same, of one name.
    let get = |i: usize| {
        let (k, g) = (i % 3, i / 3);
        let mut net: Net = vec![vec![]; 4];
        for (b, (i, j)) in pairs.iter().enumerate() {
            if g >> b & 1 == 1 {
                net[*i].push((*j, format!("m{j}"), true));
            }
        }
        Case { layout: TWINS, net, sick: [None, Some(1), Some(3)][k], gone: None, round: g % 2 == 1 }
    };
    let parts = each(graphs * 3, 64, |i| get(i).say(), |i, p| get(i).check(p));
    e.add("import graphs of four files of one name", parts);
    // Three files, imported up to twice under other names, one of them missing perhaps.
    let pairs: Vec<(usize, usize)> = (0..3).flat_map(|i| (0..3).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    let n = 3usize.pow(6) * LAYOUTS.len() * 3 * 2;
    let get = |mut i: usize| {
        let (gone, round) = ([None, Some(1), Some(2)][i % 3], i / 3 % 2 == 1);
        i /= 6;
        let l = i % LAYOUTS.len();
        i /= LAYOUTS.len();
        let mut net: Net = vec![vec![]; 3];
        for (a, b) in &pairs {
            for k in 0..i % 3 {
                net[*a].push((*b, if k == 0 { format!("m{b}") } else { format!("n{b}") }, true));
            }
            i /= 3;
        }
        for v in &mut net {
            v.reverse();
        }
        Case { layout: LAYOUTS[l], net, sick: None, gone, round }
    };
    let parts = each(n, 64, |i| get(i).say(), |i, p| {
        let c = get(i);
        if let Some(k) = c.gone {
            drop_file(&c.layout, k);
        }
        c.check(p)
    });
    e.add("three files that import each other up to twice", parts);
}
