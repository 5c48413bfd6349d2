use crate::{Cases, Er, Obs, PairS, Run};
use fams::src::{accessors, Model, Src, A};
use std::collections::HashMap;
use vref::evid::{Engine, Part};
use vref::expr::{Gram, E};
use vref::interp::{line_col, pairs, render_by, PairV, Report, EOI, V};
use vref::par;

/// Real value `r` is what the reference says, up to the structure of character classes.
fn same(w: &V, r: &V) -> bool {
    match (w, r) {
        (V::C(_), V::Alt(_, x)) => same(w, x),
        (V::L(a), V::L(b)) | (V::Rep(a), V::Rep(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (V::Alt(i, a), V::Alt(j, b)) => i == j && same(a, b),
        (V::S(a), V::S(b)) | (V::Pos(a), V::Pos(b)) | (V::Push(a), V::Push(b)) => same(a, b),
        (V::R(i, s, e, a), V::R(j, t, f, b)) => (i, s, e) == (j, t, f) && same(a, b),
        (a, b) => a == b,
    }
}
/// Only the rule spans of a tree (the interface may differ).
fn spans(v: &V, out: &mut Vec<(usize, usize, usize)>) {
    match v {
        V::R(i, s, e, x) => {
            out.push((*i, *s, *e));
            spans(x, out)
        }
        V::L(v) | V::Rep(v) => v.iter().for_each(|x| spans(x, out)),
        V::Alt(_, x) | V::S(x) | V::Pos(x) | V::Push(x) => spans(x, out),
        _ => (),
    }
}

struct Ref {
    part: Option<(usize, V)>,
    full: bool,
    epart: Option<Er>,
    efull: Option<Er>,
    states: u64,
    transitions: u64,
}
fn cls(n: &str, c: char) -> bool {
    fams::defs::class(n, c)
}
/// How deep and how long the reference goes before it is taken not to end.
fn limits(input: &str) -> (u32, u32) {
    let long = if input.len() > 64 { input.len() as u32 } else { 0 };
    (200 + 8 * long.min(2100), 20000 + 60 * long)
}
fn reference(m: &Model, entry: &E, input: &str) -> Option<Ref> {
    let mut r = vref::interp::Run::new(&m.gram, input);
    r.cls = &cls;
    r.count_states = true;
    (r.max_depth, r.fuel) = limits(input);
    let got = r.eval(entry, 0, None).ok()?;
    let name = |i: usize| if i == EOI { "EOI".to_string() } else { m.names[i].clone() };
    let order = |i: usize| if i == EOI { 0 } else { i + 1 };
    let mk = |rep: &Report| Er { pos: rep.pos, lc: line_col(input, rep.pos), msg: render_by(input, rep, &name, &order) };
    let epart = if got.is_none() { Some(mk(&r.report())) } else { None };
    let full = match &got {
        None => false,
        Some((p, ..)) => {
            let p = *p;
            r.end(p)
        }
    };
    let efull = if full { None } else { Some(mk(&r.report())) };
    Some(Ref { part: got.map(|(p, _, v)| (p, v)), full, epart, efull, states: r.distinct_states(), transitions: r.transitions })
}
fn named(m: &Model, p: &[PairV]) -> Vec<PairS> {
    p.iter().map(|p| PairS { rule: m.names[p.rule].clone(), s: p.s, e: p.e, ch: named(m, &p.ch) }).collect()
}
fn show(p: &PairS) -> String {
    format!("{}({}, {}, [{}])", p.rule, p.s, p.e, p.ch.iter().map(show).collect::<Vec<_>>().join(", "))
}
fn project(g: &Gram, m: &Model, v: &V) -> Vec<PairS> {
    let mut o = vec![];
    pairs(g, v, &mut o);
    named(m, &o)
}

/// What is compared for a property.
struct Sel {
    verdict: bool,
    check: bool,
    tree: bool,
    pairs: bool,
    err: bool,
    acc: bool,
    whole: bool,
    value: bool,
}
fn sel(prop: &str) -> Sel {
    let mut s = Sel { verdict: true, check: false, tree: false, pairs: false, err: false, acc: false, whole: false, value: false };
    match prop {
        "C01" | "C03" | "C12" | "C13" => (),
        "C02" => {
            s.verdict = false;
            s.check = true;
        }
        "C04" => {
            s.verdict = false;
            s.whole = true;
        }
        "C24" => {
            s.verdict = false;
            s.value = true;
        }
        "C05" => {
            s.verdict = false;
            s.tree = true;
        }
        "C06" => {
            s.verdict = false;
            s.pairs = true;
        }
        "C07" => {
            s.verdict = false;
            s.acc = true;
        }
        "C08" => {
            s.verdict = false;
            s.err = true;
        }
        "C14" | "C18" | "C19" | "C17" | "C15" => {
            s.tree = true;
            s.pairs = true;
        }
        "C16" => {
            s.tree = true;
            s.pairs = true;
            s.err = true;
        }
        "C21" => {
            s.tree = true;
            s.err = true;
        }
        _ => panic!("no families for {prop}"),
    }
    s
}

fn compare(s: &Sel, m: &Model, c: usize, entry: &E, input: &str, o: &Obs, rank: u64, key: &dyn Fn() -> String, p: &mut Part) {
    let Some(w) = reference(m, entry, input) else {
        p.skipped += 1;
        return;
    };
    p.states += w.states;
    p.transitions += w.transitions;
    p.evaluations += 1;
    p.traces += 4;
    let got = o.part.as_ref().ok().map(|x| x.0);
    let want = w.part.as_ref().map(|x| x.0);
    let agree = got == want;
    if want.is_some_and(|e| e > 0) || w.efull.as_ref().is_some_and(|e| e.pos > 0) {
        p.nontrivial += 1;
    }
    p.outcome(match (want.is_some(), w.full) {
        (_, true) => "whole input accepted",
        (true, _) => "prefix accepted",
        _ => "rejected",
    });
    if s.pairs {
        let id = m.gram.rules[m.entries[c].0].base.unwrap_or(m.entries[c].0);
        // The constant names the rule in its own module.
        let want = m.names[id].rsplit('(').next().unwrap().trim_end_matches(')');
        if o.rule != want {
            p.viol(rank, key, || format!("the type of rule {want} is marked with {}", o.rule));
        }
    }
    for d in &o.entry {
        p.viol(rank, key, || d.clone());
    }
    if s.verdict {
        if !agree {
            p.viol(rank, key, || format!("prefix parse: reference end {want:?}, real end {got:?}"));
        }
        let cp = o.cpart.as_ref().ok().copied();
        if cp != want {
            p.viol(rank, key, || format!("prefix check: reference end {want:?}, real end {cp:?}"));
        }
        if o.full.is_ok() != w.full || o.cfull.is_ok() != w.full {
            p.viol(rank, key, || format!("whole input: reference {}, real parse {}, real check {}", w.full, o.full.is_ok(), o.cfull.is_ok()));
        }
    }
    if s.check {
        let part = o.part.as_ref().map(|x| x.0).map_err(|e| e.clone());
        if part != o.cpart {
            p.viol(rank, key, || format!("prefix: parse {part:?}, check {:?}", o.cpart));
        }
        let full = o.full.as_ref().map(|_| ()).map_err(|e| e.clone());
        if full != o.cfull {
            p.viol(rank, key, || format!("whole: parse {full:?}, check {:?}", o.cfull));
        }
    }
    if s.whole {
        let at_end = got == Some(input.len());
        if o.full.is_ok() != at_end {
            p.viol(rank, key, || format!("prefix parse ends at {got:?} of {}, whole parse {}", input.len(), o.full.is_ok()));
        }
        if let (Ok((_, a)), Ok(b)) = (&o.part, &o.full) {
            if a != b {
                p.viol(rank, key, || format!("prefix tree {a:?}, whole tree {b:?}"));
            }
        }
        // Text left over: the end of input is named, unless matching had got further.
        for (end, e) in [(got, o.full.as_ref().err()), (o.cpart.as_ref().ok().copied(), o.cfull.as_ref().err())] {
            let (Some(end), Some(e)) = (end, e) else { continue };
            let names = e.msg.contains("EOI");
            if e.pos < end || (e.pos == end && !names) || (e.pos > end && names) {
                p.viol(rank, key, || format!("text left over at {end}: {e:?}"));
            }
        }
        if let (Err(a), Err(b)) = (&o.part, &o.full) {
            if a != b {
                p.viol(rank, key, || format!("prefix error {a:?}, whole error {b:?}"));
            }
        }
        if o.cfull.is_ok() != (o.cpart.as_ref().ok() == Some(&input.len())) {
            p.viol(rank, key, || format!("prefix check {:?} of {}, whole check {:?}", o.cpart, input.len(), o.cfull));
        }
    }
    if s.tree {
        if let (Ok((_, v)), Some((_, x)), true) = (&o.part, &w.part, agree) {
            if !same(x, v) {
                p.viol(rank, key, || format!("reference tree {x:?}, real tree {v:?}"));
            }
        }
    }
    if s.pairs {
        if let (Ok((_, v)), Some(q)) = (&o.part, &o.pairs) {
            let want = project(&m.gram, m, v);
            if q.me != want {
                p.viol(rank, key, || format!("tree {v:?} has pairs {want:?}, real pairs {:?}", q.me));
            }
            if let (Some((t, text)), Some(w)) = (&q.tree, want.first()) {
                if t != w {
                    p.viol(rank, key, || format!("pair tree {t:?}, expected {w:?}"));
                }
                if *text != show(w) {
                    p.viol(rank, key, || format!("pair tree prints as {text}, expected {}", show(w)));
                }
                if q.children != w.ch {
                    p.viol(rank, key, || format!("children {:?}, expected {:?}", q.children, w.ch));
                }
            } else if !q.children.is_empty() || q.tree.is_some() {
                p.viol(rank, key, || format!("silent rule has children {:?}", q.children));
            }
        }
    }
    if s.err && agree {
        let (ep, ef) = (o.part.as_ref().err(), o.full.as_ref().err());
        if ep != w.epart.as_ref() {
            p.viol(rank, key, || format!("prefix: reference error {:?}, real error {ep:?}", w.epart));
        }
        if o.full.is_ok() == w.full && ef != w.efull.as_ref() {
            p.viol(rank, key, || format!("whole: reference error {:?}, real error {ef:?}", w.efull));
        }
    }
    if s.acc {
        if let Ok((_, V::R(_, _, _, v))) = &o.part {
            match accessors(&m.entries[c].1, v) {
                None => p.viol(rank, key, || format!("the tree {v:?} does not have the shape of the body")),
                Some(a) => {
                    for (n, got) in &o.acc {
                        let want = a.get(*n).cloned().unwrap_or(A::Absent);
                        p.outcome(match &want {
                            A::Absent => "no accessor",
                            A::Node(_) => "node",
                            A::Opt(_) => "option",
                            A::Vec(_) => "vector",
                            A::Tuple(_) => "tuple",
                        });
                        if *got != want {
                            p.viol(rank, key, || format!("accessor {n}: expected {want:?}, real {got:?}"));
                        }
                    }
                }
            }
        }
    }
}

/// Two derived grammars that must be the same language.
fn relate(p: &mut Part, rank: u64, key: &dyn Fn() -> String, a: &Obs, b: &Obs) {
    p.traces += 8;
    p.evaluations += 1;
    let tree = |o: &Obs| {
        let mut s = vec![];
        if let Ok((_, v)) = &o.part {
            spans(v, &mut s);
        }
        s
    };
    let verdict = |o: &Obs| {
        (
            o.part.as_ref().map(|x| x.0).map_err(|e| e.clone()),
            o.full.as_ref().map(|_| ()).map_err(|e| e.clone()),
            o.cpart.clone(),
            o.cfull.clone(),
        )
    };
    if verdict(a) != verdict(b) {
        p.viol(rank, key, || format!("without the option {:?}, with it {:?}", verdict(a), verdict(b)));
    }
    if tree(a) != tree(b) {
        p.viol(rank, key, || format!("rule spans without the option {:?}, with it {:?}", tree(a), tree(b)));
    }
}

pub fn main(table: &[Cases]) {
    let (prop, thorough, out) = vref::evid::args();
    let fam = fams::defs::build(&prop, thorough);
    let s = sel(&prop);
    let by: HashMap<usize, &[Run]> = table.iter().map(|x| (x.0, x.1)).collect();
    let levels: HashMap<usize, &[(usize, usize, Run)]> = table.iter().map(|x| (x.0, x.2)).collect();
    let mut eng = Engine { name: "derived parsers".into(), ..Engine::default() };
    for sp in &fam {
        let mut todo = vec![];
        for (g, src) in &sp.grams {
            if by.contains_key(g) {
                for c in 0..src.cases.len() {
                    todo.push((*g, src, c));
                }
            }
        }
        if todo.is_empty() {
            continue;
        }
        let models: HashMap<usize, Model> = sp.grams.iter().filter(|x| by.contains_key(&x.0)).map(|(g, src)| (*g, src.model())).collect();
        // The model seen from the imported module `n` steps down the path of a rule.
        let seen = |m: &Model, n: usize| {
            let mut m = m.clone();
            for x in &mut m.names {
                for _ in 0..n {
                    if let Some((_, y)) = x.split_once('(') {
                        *x = y[..y.len() - 1].to_string();
                    }
                }
            }
            m
        };
        let runs: HashMap<(usize, usize), Vec<(usize, Model, Run)>> = todo
            .iter()
            .map(|(g, _, c)| {
                let v = levels[g].iter().filter(|l| l.0 == *c).map(|l| (l.1, seen(&models[g], l.1), l.2)).collect();
                ((*g, *c), v)
            })
            .collect();
        let say = |(g, src, c): &(usize, &Src, usize), input: Option<&str>| {
            let k = &src.cases[*c];
            let a = if k.args.is_empty() { String::new() } else { format!("({})", k.args.join(", ")) };
            let input = input.map(|i| match i.char_indices().nth(300) {
                // A long text: its length and its ends.
                Some(_) => {
                    let c: Vec<char> = i.chars().collect();
                    format!("{:?}.. {} characters ..{:?}", c[..20].iter().collect::<String>(), c.len(), c[c.len() - 20..].iter().collect::<String>())
                }
                None => format!("{i:?}"),
            });
            let texts: Vec<String> = src.files.iter().map(|f| f.text()).collect();
            let mut t = texts.join("\n--- next file ---\n");
            if t.len() > 3000 {
                // A grammar with many rules: show the one under test.
                t = t.lines().filter(|l| l.starts_with(&format!("{} ", k.entry)) || l.starts_with(&format!("{}(", k.entry)) || l.starts_with(['~', '^']) || l.starts_with("h")).collect::<Vec<_>>().join("\n");
            }
            let _ = g;
            format!("rule {}{a} on {} of {} {t}", k.entry, input.unwrap_or("some input".into()), src.attrs)
        };
        let parts = par::each(
            todo.len(),
            4,
            |j| say(&todo[j], None),
            |j, p| {
                let (g, src, c) = &todo[j];
                let m = &models[g];
                let entry = E::R(m.entries[*c].0);
                let run = by[g][*c];
                let like = src.like.map(|b| by[&b][*c]);
                for input in src.cases[*c].inputs.iter() {
                    let key = || say(&todo[j], Some(input));
                    let rank = (m.entries[*c].1.size() * 100 + input.len()) as u64;
                    // Where the reference does not end, neither need the code.
                    let starts = if s.value {
                        (0..=input.len()).filter(|i| input.is_char_boundary(*i)).collect()
                    } else if s.whole {
                        crate::starts(input)
                    } else {
                        vec![0]
                    };
                    let stacks = if s.value { crate::stacks(input) } else { vec![vec![]] };
                    let ends = starts.into_iter().all(|at| {
                        stacks.iter().all(|st| {
                            let mut probe = vref::interp::Run::new(&m.gram, input);
                            probe.cls = &cls;
                            probe.track = false;
                            (probe.max_depth, probe.fuel) = limits(input);
                            probe.eval(&entry, at, vref::interp::stk_from(st)).is_ok()
                        })
                    });
                    if !ends {
                        p.skipped += 1;
                        continue;
                    }
                    par::guard(p, rank, key, |p| {
                        let o = run(input);
                        p.sample(2, || format!("{} => {:?}", key(), o.part));
                        compare(&s, m, *c, &entry, input, &o, rank, &key, p);
                        for (n, m, run) in &runs[&(*g, *c)] {
                            let key = || format!("{} (as a rule of the module {n} down)", key());
                            compare(&s, m, *c, &entry, input, &run(input), rank, &key, p);
                        }
                        if s.whole && run(input) != o {
                            p.viol(rank, key, || "a second run differs".to_string());
                        }
                        if let Some(l) = like {
                            relate(p, rank, &key, &l(input), &o);
                            let absent = |n: &str| o.acc.iter().all(|a| a.1 == A::Absent || a.0 != n);
                            if !src.getters && !src.names.iter().all(|n| absent(n)) {
                                p.viol(rank, key, || format!("accessors in spite of no_getter: {:?}", o.acc));
                            }
                        }
                    });
                }
            },
        );
        eng.add(sp.name.clone(), parts);
    }
    eng.finish(&out)
}
