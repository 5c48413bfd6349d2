//! One exploration step: an expression, an input, a starting position and a stack history.
use crate::real::*;
use pest3_core::{typed::{Tracker, TypedNode}, Position, Span, Stack};
use vref::evid::Part;
use vref::expr::*;
use vref::interp::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Push(&'static str),
    Pop,
    Snap,
}

/// The reference stack after a history, and the contents every open snapshot must bring back.
pub fn history(ops: &[Op]) -> (Vec<&'static str>, Vec<Vec<&'static str>>) {
    let (mut cur, mut saved) = (vec![], vec![]);
    for o in ops {
        match o {
            Op::Push(s) => cur.push(*s),
            Op::Pop => {
                cur.pop();
            }
            Op::Snap => saved.push(cur.clone()),
        }
    }
    (cur, saved)
}

pub type Top<'i> = Ch<'i, ROOT>;
pub type Txt = (usize, usize, String);

pub struct Out {
    pub res: Option<(usize, V)>,
    pub pairs: Vec<PairV>,
    /// Contents of the stack afterwards, then after closing each open snapshot, innermost first.
    pub stack: Vec<Vec<Txt>>,
    pub pos: usize,
    pub report: Report,
    pub specials: std::collections::BTreeMap<Option<usize>, Vec<String>>,
}

fn txt(s: &str) -> Txt {
    (s.as_ptr() as usize, s.len(), s.to_string())
}
pub fn contents(s: &Stack<Span<'_>>) -> Vec<Txt> {
    s[0..s.len()].iter().map(|x| txt(x.as_str())).collect()
}
fn no(r: &Option<Rl>) -> Option<usize> {
    r.map(rl_no)
}
pub fn pairv(p: &pest3_core::token::Pair<Rl>) -> PairV {
    PairV { rule: rl_no(p.rule), s: p.start, e: p.end, ch: p.children.iter().map(pairv).collect() }
}

pub fn stack_of<'i>(ops: &[Op]) -> Stack<Span<'i>> {
    let mut st = Stack::new();
    for o in ops {
        match o {
            Op::Push(s) => st.push(Span::new(s, 0, s.len()).unwrap()),
            Op::Pop => {
                st.pop();
            }
            Op::Snap => st.snapshot(),
        }
    }
    st
}

pub fn real<'i>(g: &Gram, e: &E, input: &'i str, start: usize, ops: &[Op], check: bool, pairs: bool) -> Out {
    let mut st = stack_of(ops);
    let pos = Position::new(input, start).unwrap();
    let mut tr = Tracker::<Rl>::new(pos);
    let mut prs = vec![];
    let res = with(g, e, pairs, || {
        if check {
            Top::check_with_partial(pos, &mut st, &mut tr).map(|p| (p.pos(), V::U))
        } else {
            Top::try_parse_with_partial(pos, &mut st, &mut tr).map(|(p, t)| {
                prs = t.pairs.iter().map(pairv).collect();
                (p.pos(), t.v)
            })
        }
    });
    let mut stack = vec![contents(&st)];
    for o in ops.iter().rev() {
        if *o == Op::Snap {
            st.restore();
            stack.push(contents(&st));
        }
    }
    let (p, att) = tr.finish();
    let mut report = Report { pos: p.pos(), groups: Default::default() };
    let mut specials = std::collections::BTreeMap::new();
    for (k, (a, b, c)) in att {
        let n = |v: Vec<Rl>| {
            let mut v: Vec<usize> = v.into_iter().map(rl_no).collect();
            v.sort();
            v.dedup();
            v
        };
        report.groups.insert(no(&k), (n(a), n(b), vec![]));
        if !c.is_empty() {
            specials.insert(no(&k), c.iter().map(|x| x.to_string()).collect());
        }
    }
    Out { res, pairs: prs, stack, pos: p.pos(), report, specials }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    Lang,
    Agree,
    Stack,
    Whole,
    Tree,
    Pairs,
    Errors,
    Never,
    Value,
}

pub fn show(g: &Gram, e: &E, input: &str, start: usize, ops: &[Op]) -> String {
    let n = |i: usize| format!("r{i}");
    let rules: Vec<String> = g.rules.iter().filter_map(|r| r.body.as_ref().map(|b| format!("{} = {}", r.name, plain(b)))).collect();
    let _ = n;
    format!("expr `{}` input {:?} from {} stack {:?} rules [{}] trivia {:?}", plain(e), input, start, ops, rules.join("; "), g.triv)
}
/// Like grammar text, with instantiated rules and core-only operators spelled out.
pub fn plain(e: &E) -> String {
    match e {
        E::Inst(i, b) => format!("r{i}<{}>", plain(b)),
        E::Skip(n) => format!("SKIP({n})"),
        E::Chr(c) => format!("CHAR({c:?})"),
        E::Empty => "EMPTY".into(),
        E::Fail => "NONE".into(),
        E::Push(x) => format!("push({})", plain(x)),
        E::Opt(x) => format!("({})?", plain(x)),
        E::Pos(x) => format!("&({})", plain(x)),
        E::Neg(x) => format!("!({})", plain(x)),
        E::Rep(x, t, lo, hi) => format!("({}){}{{{lo}..{}}}", plain(x), tv(*t), hi.map_or(String::new(), |h| h.to_string())),
        E::Seq(v) => format!("({})", v.iter().enumerate().map(|(i, (t, x))| if i == 0 { plain(x) } else { format!(" {} {}", if *t == Tv::No { "-" } else { tv(*t) }, plain(x)) }).collect::<String>()),
        E::Cho(v) => format!("({})", v.iter().map(plain).collect::<Vec<_>>().join(" | ")),
        E::R(i) => format!("r{i}"),
        e => text(e, &|i| format!("r{i}")),
    }
}
fn tv(t: Tv) -> &'static str {
    match t {
        Tv::No => "",
        Tv::Opt(_) => "~",
        Tv::Man(_) => "^",
    }
}

/// Explores one case; adds to `p`. `what` selects the property that is decided.
pub fn case(p: &mut Part, what: What, g: &Gram, e: &E, input: &str, start: usize, ops: &[Op]) {
    vref::par::guard(p, 0, || show(g, e, input, start, ops), |p| case0(p, what, g, e, input, start, ops))
}
fn case0(p: &mut Part, what: What, g: &Gram, e: &E, input: &str, start: usize, ops: &[Op]) {
    if what == What::Whole && start > 0 {
        return;
    }
    if what == What::Value {
        return values(p, g, e, input);
    }
    let (cur, saved) = history(ops);
    let mut run = Run::new(g, input);
    run.count_states = true;
    run.track = what == What::Errors;
    let want = match run.eval(e, start, stk_from(&cur)) {
        Ok(w) => w,
        Err(Div) => {
            p.skipped += 1;
            return;
        }
    };
    let end = want.as_ref().map(|w| w.0);
    p.transitions += run.transitions;
    p.states += run.distinct_states();
    p.traces += 1;
    let rank = (e.size() as u64) << 32 | (ops.len() as u64) << 16 | input.len() as u64;
    let key = || show(g, e, input, start, ops);
    let nontrivial;
    match what {
        What::Lang => {
            let o = real(g, e, input, start, ops, false, false);
            let (a, b) = (want.as_ref().map(|w| w.0), o.res.as_ref().map(|r| r.0));
            nontrivial = b.map_or(false, |b| b > start);
            p.outcome(match b { None => "rejected", Some(x) if x == start => "matched nothing", Some(_) => "matched text" });
            if a != b {
                p.viol(rank, key, || format!("reference end {a:?}, parser end {b:?}"));
            }
        }
        What::Tree => {
            let o = real(g, e, input, start, ops, false, false);
            let (a, b) = (want.map(|w| (w.0, w.2)), o.res);
            nontrivial = b.is_some();
            if let (Some(a), Some(b)) = (&a, &b) {
                // The language itself is another property.
                p.outcome("tree compared");
                if a.1 != b.1 {
                    p.viol(rank, key, || format!("reference tree {a:?}, parser tree {b:?}"));
                }
            } else {
                p.outcome("no tree");
            }
        }
        What::Agree => {
            let a = real(g, e, input, start, ops, false, false);
            let b = real(g, e, input, start, ops, true, false);
            nontrivial = a.res.is_some();
            p.outcome(if a.res.is_some() { "accepted" } else { "rejected" });
            let (x, y) = (a.res.as_ref().map(|r| r.0), b.res.as_ref().map(|r| r.0));
            if x != y {
                p.viol(rank, key, || format!("parse ends at {x:?}, check ends at {y:?}"));
            } else if a.stack != b.stack && x.is_some() {
                p.viol(rank, key, || format!("stack after parse {:?}, after check {:?}", a.stack, b.stack));
            } else if (a.pos, &a.report, &a.specials) != (b.pos, &b.report, &b.specials) {
                p.viol(rank, key, || format!("report of parse {:?} {:?}, of check {:?} {:?}", a.report, a.specials, b.report, b.specials));
            }
            if ops.is_empty() && start == 0 {
                let pp = with(g, e, false, || Top::try_parse_partial(input).map(|x| x.0.pos()).map_err(|e| e.to_string()));
                let cp = with(g, e, false, || Top::check_partial(input).map(|x| x.pos()).map_err(|e| e.to_string()));
                if pp != cp {
                    p.viol(rank, key, || format!("try_parse_partial {pp:?}, check_partial {cp:?}"));
                }
                let pf = with(g, e, false, || Top::try_parse(input).map(|_| ()).map_err(|e| e.to_string()));
                let cf = with(g, e, false, || Top::check(input).map_err(|e| e.to_string()));
                if pf != cf {
                    p.viol(rank, key, || format!("try_parse {pf:?}, check {cf:?}"));
                }
            }
        }
        What::Stack => {
            nontrivial = true;
            for check in [false, true] {
                let o = real(g, e, input, start, ops, check, false);
                p.outcome(if o.res.is_some() { "accepted" } else { "rejected" });
                let (a, b) = (want.as_ref().map(|w| w.0), o.res.as_ref().map(|r| r.0));
                if a != b && uses_stack(g, e) {
                    p.viol(rank, key, || format!("check={check}: reference end {a:?}, real end {b:?}"));
                    break;
                }
                if let (Some(w), true) = (&want, a == b) {
                    let ws: Vec<Txt> = stk_vec(&w.1).into_iter().map(txt).collect();
                    if ws != o.stack[0] {
                        p.viol(rank, key, || format!("check={check}: reference stack {ws:?}, real stack {:?}", o.stack[0]));
                        break;
                    }
                }
                let sv: Vec<Vec<Txt>> = saved.iter().rev().map(|v| v.iter().map(|s| txt(s)).collect()).collect();
                if sv[..] != o.stack[1..] {
                    p.viol(rank, key, || format!("check={check}: saved states {sv:?}, restored {:?}", &o.stack[1..]));
                    break;
                }
            }
        }
        What::Whole => {
            // Whole-input parsing = prefix parsing that reaches the end; nothing is remembered.
            let part = |_: usize| with(g, e, false, || Top::try_parse_partial(input).map(|x| (x.0.pos(), x.1.v)).map_err(|e| e.to_string()));
            let full = |_: usize| with(g, e, false, || Top::try_parse(input).map(|x| x.v).map_err(|e| e.to_string()));
            let chk = |_: usize| with(g, e, false, || Top::check(input).map_err(|e| e.to_string()));
            let (p1, f1, c1) = (part(0), full(0), chk(0));
            let (c2, f2, p2) = (chk(1), full(1), part(1));
            nontrivial = p1.is_ok();
            p.outcome(match (&p1, &f1) { (Ok(_), Ok(_)) => "whole", (Ok(_), Err(_)) => "prefix only", _ => "none" });
            if p1 != p2 || f1 != f2 || c1 != c2 {
                p.viol(rank, key, || format!("second run differs: {p1:?} {p2:?} / {f1:?} {f2:?} / {c1:?} {c2:?}"));
            }
            let exp = match &p1 { Ok((q, v)) if *q == input.len() => Some(v.clone()), _ => None };
            if f1.clone().ok() != exp {
                p.viol(rank, key, || format!("try_parse {f1:?} but prefix parse {p1:?}"));
            }
            if c1.is_ok() != exp.is_some() {
                p.viol(rank, key, || format!("check {c1:?} but prefix parse {p1:?}"));
            }
            // With explicit state; the report tells of the end of input exactly when it should.
            let before = real(g, e, input, start, &[], false, false);
            let text_left = match &p1 {
                Ok((q, _)) if *q < input.len() => Some(*q),
                _ => None,
            };
            for check in [false, true] {
                let pos = Position::from_start(input);
                let mut st = stack_of(&[]);
                let mut tr = Tracker::<Rl>::new(pos);
                let name = if check { "check_with" } else { "try_parse_with" };
                let ok = if check {
                    with(g, e, false, || Top::check_with(pos, &mut st, &mut tr))
                } else {
                    let w = with(g, e, false, || Top::try_parse_with(pos, &mut st, &mut tr).map(|x| x.v));
                    if w != exp && exp.is_some() == w.is_some() {
                        p.viol(rank, key, || format!("{name} {w:?} but prefix parse {p1:?}"));
                    }
                    w.is_some()
                };
                if ok != exp.is_some() {
                    p.viol(rank, key, || format!("{name} {ok} but prefix parse {p1:?}"));
                }
                let (at, att) = tr.finish();
                let (at, named) = (at.pos(), att.values().any(|a| a.0.contains(&Rl::EOI)));
                let was = before.report.groups.values().any(|a| a.0.contains(&vref::interp::EOI));
                match text_left {
                    // All was matched: no report is made.
                    None if p1.is_ok() => (),
                    None => {
                        if at != before.pos || named != was {
                            p.viol(rank, key, || format!("{name}: nothing matched, report at {at}, of the prefix at {}", before.pos));
                        }
                    }
                    Some(q) if before.pos > q => {
                        if at != before.pos || named != was {
                            p.viol(rank, key, || format!("{name}: text left over at {q}, matching got to {}, report at {at}, end of input named: {named}", before.pos));
                        }
                    }
                    Some(q) => {
                        if at != q || !named {
                            p.viol(rank, key, || format!("{name}: text left over at {q}, report at {at}, end of input named: {named}"));
                        }
                        if before.pos < q && (att.len() > 1 || att.values().any(|a| a.0.len() != 1 || !a.1.is_empty() || !a.2.is_empty())) {
                            p.viol(rank, key, || format!("{name}: text left over at {q}, but more than the end of input is reported"));
                        }
                    }
                }
            }
        }
        What::Pairs => {
            let o = real(g, e, input, start, ops, false, true);
            nontrivial = !o.pairs.is_empty();
            if let (Some(w), Some(_)) = (&want, &o.res) {
                let mut exp = vec![];
                pairs(g, &w.2, &mut exp);
                p.outcome(if exp.is_empty() { "no pairs" } else { "pairs" });
                if exp != o.pairs {
                    p.viol(rank, key, || format!("reference pairs {exp:?}, real pairs {:?}", o.pairs));
                }
            } else {
                p.outcome("rejected");
            }
        }
        What::Errors => {
            let rep = run.report();
            // A successful prefix followed by the demand for the end.
            let mut whole = rep.clone();
            let mut full_ok = false;
            if let Some(w) = &want {
                full_ok = run.end(w.0);
                whole = run.report();
            }
            let split = |r: &Report| {
                let sp: std::collections::BTreeMap<Option<usize>, Vec<String>> = r.groups.iter().filter(|g| !g.1 .2.is_empty()).map(|(k, g)| (*k, g.2.iter().map(|x| x.text()).collect())).collect();
                let gr: std::collections::BTreeMap<Option<usize>, Group> = r.groups.iter().map(|(k, g)| (*k, (g.0.clone(), g.1.clone(), vec![]))).collect();
                (sp, gr)
            };
            nontrivial = want.is_none() || !full_ok;
            for check in [false, true] {
                let o = real(g, e, input, start, ops, check, false);
                if o.res.as_ref().map(|r| r.0) != want.as_ref().map(|w| w.0) {
                    p.outcome("language differs");
                    return;
                }
                let (sp, gr) = split(&rep);
                // Events at the start position of a run that found nothing.
                let pos = rep.pos.max(start);
                if (pos, &gr, &sp) != (o.pos, &o.report.groups, &o.specials) {
                    p.viol(rank, key, || format!("check={check}: reference report {rep:?}, real report {:?} {:?}", o.report, o.specials));
                }
            }
            if ops.is_empty() && start == 0 {
                let msg = |e: Box<pest3_core::error::Error<Rl>>| {
                    let m = match &e.variant {
                        pest3_core::error::ErrorVariant::CustomError { message } => message.clone(),
                        v => format!("{v:?}"),
                    };
                    let loc = match e.location {
                        pest3_core::error::InputLocation::Pos(p) => p,
                        pest3_core::error::InputLocation::Span(_) => usize::MAX,
                    };
                    let lc = match e.line_col {
                        pest3_core::error::LineColLocation::Pos(p) => p,
                        pest3_core::error::LineColLocation::Span(..) => (0, 0),
                    };
                    (loc, lc, m)
                };
                let exp = |r: &Report| (r.pos, line_col(input, r.pos), render(input, r, &rl_name));
                let pp = with(g, e, false, || Top::try_parse_partial(input).err().map(msg));
                let ep = if want.is_none() { Some(exp(&rep)) } else { None };
                if pp != ep {
                    p.viol(rank, key, || format!("prefix parse: reference error {ep:?}, real error {pp:?}"));
                }
                let pf = with(g, e, false, || Top::try_parse(input).err().map(msg));
                let cf = with(g, e, false, || Top::check(input).err().map(msg));
                let ef = if full_ok { None } else { Some(exp(&whole)) };
                p.outcome(if ef.is_some() { "error text compared" } else { "no error" });
                if pf != ef {
                    p.viol(rank, key, || format!("whole parse: reference error {ef:?}, real error {pf:?}"));
                }
                if cf != ef {
                    p.viol(rank, key, || format!("whole check: reference error {ef:?}, real error {cf:?}"));
                }
            } else {
                p.outcome("report compared");
            }
        }
        What::Value => unreachable!(),
        What::Never => {
            let E::Rep(_, _, 0, hi) = e else {
                nontrivial = false;
                return;
            };
            let o = real(g, e, input, start, ops, false, false);
            let mut st = stack_of(ops);
            let pos = Position::new(input, start).unwrap();
            let n = with(g, e, false, || never(0, *hi, pos, &mut st)).map(|(p, v)| (p.pos(), v));
            nontrivial = n.as_ref().map_or(false, |n| n.0 > start);
            p.outcome(if nontrivial { "consumed" } else { "nothing consumed" });
            if n != o.res {
                p.viol(rank, key, || format!("never-failing parse {n:?}, fallible parse {:?}", o.res));
            }
            let c = contents(&st);
            if c != o.stack[0] {
                p.viol(rank, key, || format!("stack after never-failing parse {c:?}, after fallible {:?}", o.stack[0]));
            }
            for (o, w) in ops.iter().rev().filter(|o| **o == Op::Snap).zip(saved.iter().rev()) {
                let _ = o;
                st.restore();
                let c = contents(&st);
                let w: Vec<Txt> = w.iter().map(|s| txt(s)).collect();
                if c != w {
                    p.viol(rank, key, || format!("snapshot after never-failing parse restores {c:?}, saved {w:?}"));
                }
            }
            if ops.is_empty() && start == 0 {
                let s = with(g, e, false, || never_str(*hi, input));
                if Some(&s) != o.res.as_ref() {
                    p.viol(rank, key, || format!("parse_partial {s:?}, fallible parse {:?}", o.res));
                }
            }
        }
    }
    if nontrivial {
        p.nontrivial += 1;
    }
    p.evaluations += 1;
    p.sample(2, || format!("{}: reference {}", show(g, e, input, start, ops), end.map_or("rejects".to_string(), |q| format!("ends at {q}"))));
}

pub fn uses_stack(g: &Gram, e: &E) -> bool {
    let mut u = false;
    let mut f = |x: &E| u |= matches!(x, E::Push(_) | E::Peek | E::PeekAll | E::Pop | E::PopAll | E::Drop | E::Sl(..));
    e.visit(&mut f);
    g.rules.iter().filter_map(|r| r.body.as_ref()).for_each(|b| b.visit(&mut f));
    g.triv.iter().for_each(|t| [&t.0, &t.1].into_iter().flatten().for_each(|b| b.visit(&mut f)));
    u
}

/// Everything one expression gives anywhere in the input, on a few stacks, compared with one another.
fn values(p: &mut Part, g: &Gram, e: &E, input: &str) {
    let rank = (e.size() as u64) << 32 | input.len() as u64;
    let hs: &[&[Op]] = if uses_stack(g, e) { &[&[], &[Op::Push("a")], &[Op::Push("b")], &[Op::Push("b"), Op::Push("a")], &[Op::Push("a"), Op::Push("a"), Op::Push("b")]] } else { &[&[]] };
    let mut all: Vec<(String, Kept)> = vec![];
    let mut prs: Vec<(Vec<pest3_core::token::Pair<Rl>>, Vec<PairV>)> = vec![];
    for h in hs {
        for start in (0..=input.len()).filter(|i| input.is_char_boundary(*i)) {
            let (cur, _) = history(h);
            let mut run = Run::new(g, input);
            run.count_states = true;
            if run.eval(e, start, stk_from(&cur)).is_err() {
                p.skipped += 1;
                continue;
            }
            p.transitions += run.transitions;
            p.states += run.distinct_states();
            let mut v = V::U;
            let kept = keeping(|| {
                let mut st = stack_of(h);
                let pos = Position::new(input, start).unwrap();
                let mut tr = Tracker::<Rl>::new(pos);
                if let Some((_, t)) = with(g, e, true, || Top::try_parse_with_partial(pos, &mut st, &mut tr)) {
                    prs.push((t.pairs.clone(), t.pairs.iter().map(pairv).collect()));
                    v = t.v;
                }
            });
            p.traces += 1;
            for k in kept {
                if k.v != v {
                    p.viol(rank, || show(g, e, input, start, h), || format!("the node records {v:?}, its clone {:?}", k.v));
                }
                all.push((format!("from {start} on {h:?}"), k));
            }
        }
    }
    // Of many nodes, each is compared with the first of every kind and with its neighbours.
    let first: Vec<bool> = all.iter().enumerate().map(|(i, a)| !all[..i].iter().any(|b| b.1.v == a.1.v)).collect();
    for (i, (fa, a)) in all.iter().enumerate() {
        for (j, (fb, b)) in all.iter().enumerate().skip(i) {
            if all.len() > 24 && j > i + 2 && !first[i] && !first[j] {
                continue;
            }
            p.evaluations += 1;
            let (x, y, same) = (a.same(b), b.same(a), a.v == b.v);
            p.outcome(if same { "the same content" } else { "different content" });
            let key = || format!("{} and {fa} and {fb}", show(g, e, input, 0, &[]));
            if x != same || y != same {
                p.viol(rank, key, || format!("the nodes record {:?} and {:?}, == gives {x} and {y}", a.v, b.v));
            } else if same && a.hash != b.hash {
                p.viol(rank, key, || format!("equal nodes {:?} have hashes {} and {}", a.v, a.hash, b.hash));
            } else if same && a.debug != b.debug {
                p.viol(rank, key, || format!("equal nodes are printed as {} and {}", a.debug, b.debug));
            }
        }
    }
    for (i, a) in prs.iter().enumerate().take(8) {
        for b in &prs[i..prs.len().min(8)] {
            if (a.0 == b.0) != (a.1 == b.1) || (b.0 == a.0) != (a.1 == b.1) {
                p.viol(rank, || show(g, e, input, 0, &[]), || format!("pairs {:?} and {:?}: == gives {}", a.1, b.1, a.0 == b.0));
            }
        }
    }
    if all.len() > 2 {
        p.nontrivial += 1;
    }
    p.sample(2, || format!("{}: {} nodes compared", show(g, e, input, 0, &[]), all.len()));
}
