//! Explores the combinators of pest3_core against the reference semantics.
mod case;
mod real;
mod uni;
use case::*;
use vref::evid::*;
use vref::expr::*;
use vref::gen::*;
use vref::par::*;

fn b(f: impl Fn(E) -> E + Sync + Send + 'static) -> Un {
    Box::new(f)
}
fn bb(f: impl Fn(E, E) -> E + Sync + Send + 'static) -> Bi {
    Box::new(f)
}
fn s(x: &str) -> E {
    E::s(x)
}

struct Space<'a> {
    name: String,
    grams: Vec<Gram>,
    exprs: Vec<&'a [E]>,
    inputs: Vec<String>,
    starts: Vec<usize>,
    hists: Vec<Vec<Op>>,
}

fn explore(eng: &mut Engine, what: What, sp: Space<'_>) {
    let n: usize = sp.exprs.iter().map(|x| x.len()).sum();
    let get = |mut i: usize| {
        let mut k = 0;
        while i >= sp.exprs[k].len() {
            i -= sp.exprs[k].len();
            k += 1;
        }
        &sp.exprs[k][i]
    };
    let parts = each(n, 16, |i| format!("{what:?}: {}", plain(get(i))), |i, p| {
        let e = get(i);
        for g in &sp.grams {
            for h in &sp.hists {
                for inp in &sp.inputs {
                    for st in &sp.starts {
                        if inp.is_char_boundary(*st) && *st <= inp.len() {
                            case(p, what, g, e, inp, *st, h);
                        }
                    }
                }
            }
        }
    });
    eng.add(sp.name, parts);
}

fn no_rules() -> Vec<Gram> {
    vec![Gram::default()]
}
fn ab(n: usize) -> Vec<String> {
    strings(&['a', 'b'], n)
}

fn a_match(rich: bool) -> Alpha {
    let mut leaves = vec![s("a"), s("b"), s("ab"), E::Any, E::Eoi, E::Soi, s("")];
    if rich {
        leaves.extend([
            s("é"), s("aé"), s("\r"), s("\n"), s("日"), s("😀"), s("aba"),
            E::Ins("aB".into()), E::Ins("é".into()), E::Ins("a".into()),
            E::Rng('a', 'b'), E::Rng('b', 'a'), E::Rng('b', 'é'), E::Rng('é', 'ê'), E::Rng('\0', 'a'), E::Rng('\u{10000}', '\u{10ffff}'), E::Rng('\u{800}', '\u{ffff}'), E::Rng('\u{7f}', '\u{80}'), E::Rng('\u{80}', '\u{7ff}'), E::Rng('日', '日'), E::Rng('é', 'é'),
            E::Nl, E::Empty, E::Fail, E::Skip(0), E::Skip(1), E::Skip(2), E::Skip(3), E::Chr('a'), E::Chr('é'), E::Chr('日'), E::Chr('😀'), E::Chr('\n'),
        ]);
    }
    let un: Vec<Un> = vec![
        b(E::opt),
        b(|e| E::rep(e, Tv::No, 0, None)),
        b(|e| E::rep(e, Tv::No, 1, None)),
        b(|e| E::rep(e, Tv::No, 2, Some(2))),
        b(|e| E::rep(e, Tv::No, 1, Some(2))),
        b(E::pos),
        b(E::neg),
    ];
    Alpha { leaves, un, bi: vec![bb(|x, y| E::seq(vec![x, y])), bb(|x, y| E::cho(vec![x, y]))] }
}
/// All bounds of repetition around small operands.
fn bounds() -> Vec<E> {
    let ops = [
        s("a"), s("ab"), E::Any, s(""), E::opt(s("a")), E::neg(s("b")), E::cho(vec![s("ab"), s("a")]), E::seq(vec![E::opt(s("b")), s("a")]), E::push(E::Any), E::Pop, E::Drop, E::Eoi, E::rep(s("a"), Tv::No, 0, Some(2)),
    ];
    let mut v = vec![];
    for o in &ops {
        for t in [Tv::No, Tv::Opt(0), Tv::Man(0)] {
            for (lo, hi) in [(0, None), (1, None), (2, None), (3, None), (0, Some(0)), (0, Some(1)), (0, Some(2)), (0, Some(3)), (1, Some(1)), (1, Some(2)), (1, Some(3)), (2, Some(2)), (2, Some(3)), (3, Some(3))] {
                let r = E::rep(o.clone(), t, lo, hi);
                v.push(E::seq(vec![r.clone(), s("b")]));
                v.push(E::opt(E::seq(vec![r.clone(), s("b")])));
                v.push(r);
            }
        }
    }
    v
}
fn a_stack() -> Alpha {
    let leaves = vec![
        s("a"), s("b"), E::push(E::Any), E::push(s("a")), E::Peek, E::Pop, E::Drop, E::PeekAll, E::PopAll, E::Sl(0, Some(1)), E::Sl(-1, None), E::Sl(0, None),
    ];
    let un: Vec<Un> = vec![b(E::push), b(E::opt), b(|e| E::rep(e, Tv::No, 0, None)), b(|e| E::rep(e, Tv::No, 0, Some(2))), b(E::pos), b(E::neg)];
    Alpha { leaves, un, bi: vec![bb(|x, y| E::seq(vec![x, y])), bb(|x, y| E::cho(vec![x, y]))] }
}
/// Straight-line programs of stack operations with nested blocks that are undone or kept.
fn programs(max: usize) -> Vec<Vec<E>> {
    let leaves = [E::push(E::Any), E::Drop, E::Pop, E::PopAll, E::PeekAll];
    let wrap: [fn(Vec<E>) -> E; 5] = [
        |v| E::opt(E::seq(v)),
        |mut v| {
            v.push(E::Fail);
            E::opt(E::seq(v))
        },
        |v| E::pos(E::seq(v)),
        |v| E::neg(E::seq(v)),
        |v| E::rep(E::seq(v), Tv::No, 0, Some(2)),
    ];
    // lists[n], items[n]: by weight.
    let mut items: Vec<Vec<E>> = vec![vec![]];
    let mut lists: Vec<Vec<Vec<E>>> = vec![vec![vec![]]];
    for n in 1..=max {
        let mut it = vec![];
        if n == 1 {
            it.extend(leaves.iter().cloned());
        } else {
            for l in &lists[n - 1] {
                for w in &wrap {
                    // E::seq of one element is not a sequence of the library.
                    let mut l2 = l.clone();
                    if l2.len() == 1 {
                        l2.push(E::Empty);
                    }
                    it.push(w(l2));
                }
            }
        }
        items.push(it);
        let mut ls = vec![];
        for k in 1..=n {
            for i in &items[k] {
                for l in &lists[n - k] {
                    let mut v = vec![i.clone()];
                    v.extend(l.iter().cloned());
                    ls.push(v);
                }
            }
        }
        lists.push(ls);
    }
    lists
        .into_iter()
        .map(|l| {
            l.into_iter()
                .filter(|v| !v.is_empty())
                .map(|mut v| {
                    if v.len() == 1 {
                        v.pop().unwrap()
                    } else {
                        E::seq(v)
                    }
                })
                .collect()
        })
        .collect()
}
fn hists(n: usize) -> Vec<Vec<Op>> {
    use Op::*;
    let all = vec![
        vec![],
        vec![Push("a"), Snap, Push("b"), Snap, Pop],
        vec![Push("b"), Push("a"), Snap],
        vec![Push("a")],
        vec![Push("a"), Push("b")],
        vec![Snap],
        vec![Push("a"), Push("b"), Snap, Pop, Pop, Snap, Push("a")],
        vec![Push("a"), Snap, Pop, Push("b"), Snap],
        vec![Push("ab"), Push(""), Push("a")],
        vec![Push("a"), Push("a"), Push("a"), Snap, Pop, Snap, Pop, Snap],
        vec![Snap, Push("a"), Snap, Push("b"), Snap],
        vec![Push("b"), Snap, Pop, Snap, Push("a"), Push("a")],
    ];
    all.into_iter().take(n).collect()
}
/// All histories of at most n steps.
fn all_hists(n: usize) -> Vec<Vec<Op>> {
    let ops = [Op::Push("a"), Op::Push("b"), Op::Pop, Op::Snap];
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = vec![];
        for h in &last {
            for o in &ops {
                let mut h2: Vec<Op> = h.clone();
                h2.push(o.clone());
                next.push(h2);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
fn slices() -> Vec<E> {
    let mut v = vec![];
    for a in -3..=4 {
        v.push(E::Sl(a, None));
        for c in -3..=4 {
            v.push(E::Sl(a, Some(c)));
        }
    }
    let mut w = v.clone();
    for e in &v {
        w.push(E::opt(e.clone()));
        w.push(E::neg(e.clone()));
        w.push(E::seq(vec![e.clone(), E::PopAll]));
        w.push(E::seq(vec![E::push(E::Any), e.clone()]));
        w.push(E::push(e.clone()));
    }
    w
}
fn trivia_grams(full: bool) -> Vec<Gram> {
    let sp = || s(" ");
    let star = |e| E::rep(e, Tv::No, 0, None);
    let plus = |e| E::rep(e, Tv::No, 1, None);
    let r = |name: &str, body| Rule { name: name.into(), body, silent: false, base: None };
    let rules = vec![r("r0", Some(s("a"))), r("r1", Some(s("b"))), r("r2", None), r("r3", Some(star(sp())))];
    let mut v = vec![
        (Some(star(sp())), Some(plus(sp()))),
        (Some(E::R(3)), Some(plus(E::cho(vec![sp(), s("-")])))),
        (None, Some(sp())),
        (Some(sp()), None),
    ];
    if full {
        v.extend([
            (None, None),
            (Some(E::opt(sp())), Some(E::Inst(2, Box::new(plus(sp()))))),
            (Some(E::push(star(sp()))), Some(E::seq(vec![sp(), E::opt(E::Drop)]))),
            (Some(star(E::Any)), Some(E::Fail)),
        ]);
    }
    v.into_iter().map(|t| Gram { rules: rules.clone(), triv: vec![t] }).collect()
}
fn a_trivia() -> Alpha {
    let mut un: Vec<Un> = vec![b(E::opt), b(E::neg)];
    for t in [Tv::Opt(0), Tv::Man(0), Tv::No] {
        un.push(b(move |e| E::rep(e, t, 0, None)));
        un.push(b(move |e| E::rep(e, t, 1, None)));
        un.push(b(move |e| E::rep(e, t, 2, Some(2))));
    }
    Alpha {
        leaves: vec![s("a"), s("b"), s("")],
        un,
        bi: vec![
            bb(|x, y| E::seq2(x, Tv::Opt(0), y)),
            bb(|x, y| E::seq2(x, Tv::Man(0), y)),
            bb(|x, y| E::seq2(x, Tv::No, y)),
            bb(|x, y| E::cho(vec![x, y])),
        ],
    }
}
fn rules_gram() -> Gram {
    let r = |name: &str, body, silent| Rule { name: name.into(), body, silent, base: None };
    Gram {
        rules: vec![r("r0", Some(s("a")), false), r("r1", Some(E::seq(vec![s("a"), s("b")])), false), r("r2", None, false), r("r3", None, false)],
        triv: vec![(None, None)],
    }
}
fn a_rules() -> Alpha {
    Alpha {
        leaves: vec![E::R(0), E::R(1), s("b"), E::Eoi, E::Drop, E::Sl(1, Some(2))],
        un: vec![
            b(|e| E::Inst(2, Box::new(e))),
            b(|e| E::Inst(3, Box::new(e))),
            b(E::opt),
            b(|e| E::rep(e, Tv::No, 0, None)),
            b(E::pos),
            b(E::neg),
            b(E::push),
        ],
        bi: vec![bb(|x, y| E::seq(vec![x, y])), bb(|x, y| E::cho(vec![x, y]))],
    }
}
/// Pairs of mutually recursive rules.
fn recursive(max: usize) -> Vec<Gram> {
    let a = Alpha {
        leaves: vec![s("a"), s("b"), E::R(0), E::R(1)],
        un: vec![b(E::opt), b(|e| E::rep(e, Tv::No, 0, None)), b(E::neg)],
        bi: vec![bb(|x, y| E::seq(vec![x, y])), bb(|x, y| E::cho(vec![x, y]))],
    };
    let l = levels(&a, max);
    let r = |name: &str, body: &E| Rule { name: name.into(), body: Some(body.clone()), silent: false, base: None };
    let mut v = vec![];
    for (i, x) in l.iter().enumerate() {
        for e0 in x {
            for (j, y) in l.iter().enumerate() {
                if i + j > max + 2 {
                    continue;
                }
                for e1 in y {
                    v.push(Gram { rules: vec![r("r0", e0), r("r1", e1)], triv: vec![] });
                }
            }
        }
    }
    v
}

fn letters(n: usize) -> Vec<String> {
    (0..n).map(|i| ((b'a' + i as u8) as char).to_string()).collect()
}
/// Wide sequences and choices: every deviation of up to `k` parts from the plain one.
fn wide(n: usize, k: usize, cho: bool, rules: bool) -> Vec<E> {
    let ls = letters(n);
    let base: Vec<E> = ls.iter().enumerate().map(|(i, l)| if rules { E::Inst(i % 4, Box::new(s(l))) } else { s(l) }).collect();
    let alts = |i: usize| -> Vec<E> {
        let l = s(&ls[i]);
        let nx = s(&ls[(i + 1) % n]);
        if cho {
            vec![nx, s(&ls[0]), E::Fail, E::seq(vec![l.clone(), l.clone()]), E::push(l.clone()), E::seq(vec![E::push(l.clone()), E::Fail]), E::Inst(0, Box::new(l.clone())), E::opt(l)]
        } else {
            vec![E::opt(l.clone()), s(""), E::Any, E::neg(l.clone()), E::push(l.clone()), E::Inst(0, Box::new(l.clone())), E::rep(l, Tv::Opt(0), 1, None)]
        }
    };
    let mk = |parts: Vec<E>, tr: Vec<Tv>| {
        if cho {
            E::Cho(parts)
        } else {
            E::Seq(parts.into_iter().zip(tr).map(|(e, t)| (t, e)).collect())
        }
    };
    let no = vec![Tv::No; n];
    let mut v = vec![mk(base.clone(), no.clone())];
    for i in 0..n {
        for x in alts(i) {
            let mut p = base.clone();
            p[i] = x;
            v.push(mk(p.clone(), no.clone()));
            if k > 1 {
                for j in i + 1..n {
                    for y in alts(j) {
                        let mut p = p.clone();
                        p[j] = y;
                        v.push(mk(p, no.clone()));
                    }
                }
            }
        }
    }
    if !cho {
        // Every choice of up to two places with trivia, on both backgrounds.
        for bg in [Tv::No, Tv::Opt(0), Tv::Man(0)] {
            for i in 1..n {
                for ti in [Tv::No, Tv::Opt(0), Tv::Man(0)] {
                    for j in i..n {
                        for tj in [Tv::No, Tv::Opt(0), Tv::Man(0)] {
                            let mut t = vec![bg; n];
                            t[0] = Tv::No;
                            t[i] = ti;
                            t[j] = tj;
                            v.push(mk(base.clone(), t));
                        }
                    }
                }
            }
        }
    }
    v
}
fn wide_inputs(n: usize, cho: bool) -> Vec<String> {
    let ls = letters(n);
    let mut v = vec![String::new()];
    if cho {
        v.extend(ls.iter().cloned());
        v.extend(ls.iter().map(|l| format!("{l}{l}")));
        v.push("-".into());
        return v;
    }
    let full = ls.concat();
    v.push(full.clone());
    v.push(ls.join(" "));
    v.push(format!("{full}a"));
    for i in 0..n {
        v.push(full[..i].into());
        v.push(format!("{}{}", &full[..i], &full[i + 1..]));
        v.push(format!("{}-{}", &full[..i], &full[i + 1..]));
        v.push(format!("{} {}", &full[..i], &full[i..]));
        v.push(format!("{}{}", &full[..i + 1], &full[i..]));
        // All gaps but one.
        let mut t = String::new();
        for (j, l) in ls.iter().enumerate() {
            if j > 0 && j != i {
                t.push(' ');
            }
            t.push_str(l);
        }
        v.push(t);
    }
    v
}

// Narrow but deep: few shapes, driven far beyond the sizes of the other spaces.

/// Numbers of rules, iterations, levels and stack entries reached here.
const FAR: usize = 13;

fn deep_gram(triv: Gram) -> Gram {
    let rules = (0..20).map(|i| Rule { name: format!("r{i}"), body: Some(s(&letters(20)[i])), silent: false, base: None }).collect();
    Gram { rules, triv: triv.triv.into_iter().filter(|t| !format!("{t:?}").contains("R(")).collect() }
}
/// All bounds up to `FAR`.
fn many_times(never: bool) -> Vec<E> {
    let ops = [s("a"), E::Any, E::push(E::Any), E::Inst(4, Box::new(s("a"))), E::cho(vec![s("a"), E::Pop]), E::seq(vec![E::opt(s("b")), s("a")]), E::Drop];
    let mut v = vec![];
    for (k, o) in ops.iter().enumerate() {
        for t in [Tv::No, Tv::Opt(0), Tv::Man(0)] {
            for lo in 0..=FAR {
                for hi in (lo..=FAR).map(Some).chain([None]) {
                    if never && lo > 0 || k > 2 && ![0, 1, 9, 10, FAR].contains(&lo) {
                        continue;
                    }
                    let r = E::rep(o.clone(), t, lo, hi);
                    if !never {
                        v.push(E::opt(E::seq(vec![r.clone(), s("b")])));
                    }
                    v.push(r);
                }
            }
        }
    }
    v
}
/// Long runs of `a` with one irregularity at any place.
fn long_runs() -> Vec<String> {
    let mut v = vec![];
    for n in 0..=FAR + 3 {
        for sep in ["", " "] {
            let parts = vec!["a"; n];
            v.push(parts.join(sep));
            v.push(parts.join(sep) + "b");
            for i in 0..n {
                for x in ["b", "", "aa", "  a"] {
                    if n == FAR + 3 || n == 10 || i + 1 == n && n > 0 {
                        let mut q = parts.clone();
                        q[i] = x;
                        v.push(q.join(sep));
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
/// Towers: the operators of a pattern applied again and again.
fn towers() -> Vec<E> {
    let ops: Vec<Un> = vec![
        b(E::opt),
        b(|e| E::rep(e, Tv::No, 0, None)),
        b(|e| E::rep(e, Tv::No, 1, Some(2))),
        b(E::pos),
        b(E::neg),
        b(E::push),
        b(|e| E::Inst(5, Box::new(e))),
        b(|e| E::Inst(11, Box::new(e))),
        b(|e| E::seq(vec![s("a"), e])),
        b(|e| E::seq(vec![e, s("b")])),
        b(|e| E::cho(vec![s("b"), e])),
        b(|e| E::cho(vec![e, s("a")])),
        b(|e| E::seq(vec![e, E::Drop])),
        b(|e| E::cho(vec![E::seq(vec![E::push(s("a")), e.clone(), E::Fail]), E::Any])),
    ];
    let n = ops.len();
    let mut pats: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    pats.extend((0..n * n).map(|i| vec![i / n, i % n]));
    pats.extend((0..n * n * n).map(|i| vec![i / n / n, i / n % n, i % n]));
    let mut v = vec![];
    for p in &pats {
        for leaf in [s("a"), E::Any, E::Drop] {
            for h in [7, 12] {
                let mut e = leaf.clone();
                for k in 0..h {
                    e = ops[p[k % p.len()]](e);
                }
                v.push(e);
            }
        }
    }
    v
}
/// Long stack histories: blocks of steps of any of a few lengths.
fn long_hists() -> Vec<Vec<Op>> {
    let len = [0, 1, 4, 9, 12];
    let mut v = vec![];
    for a in [1, 9, 12] {
        for b in len {
            for c in len {
                for d in len {
                    for snaps in 0..8 {
                        let mut h = vec![];
                        let mut go = |n: usize, o: &dyn Fn(usize) -> Op| h.extend((0..n).map(o));
                        let put = |i: usize| Op::Push(["a", "b", "ab", ""][i % 4]);
                        go(a, &put);
                        go(snaps & 1, &|_| Op::Snap);
                        go(b, &|_| Op::Pop);
                        go(snaps >> 1 & 1, &|_| Op::Snap);
                        go(c, &put);
                        go(snaps >> 2 & 1, &|_| Op::Snap);
                        go(d, &|_| Op::Pop);
                        v.push(h);
                    }
                }
            }
        }
    }
    v
}
fn far_slices() -> Vec<E> {
    let at = [-13, -12, -9, -5, -1, 0, 1, 5, 9, 12, 13];
    let mut v = vec![E::Peek, E::PeekAll, E::Pop, E::PopAll, E::Drop];
    v.extend(at.iter().map(|a| E::Sl(*a, None)));
    for a in at {
        v.extend(at.iter().map(|c| E::Sl(a, Some(*c))));
    }
    let undone: Vec<E> = [E::PopAll, E::rep(E::Drop, Tv::No, 9, Some(9)), E::rep(E::push(s("a")), Tv::No, 0, Some(10))].into_iter().map(|e| E::opt(E::seq(vec![e, E::Fail]))).collect();
    v.extend(undone);
    v
}
/// The texts on top of such a stack.
fn stack_texts() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "b", "ab", "ba", "aab", "abab", "aaaaaaaaaaaaaaaaa"].map(String::from).to_vec();
    let all: Vec<&str> = (0..12).map(|i| ["a", "b", "ab", ""][i % 4]).collect();
    for n in 1..=12 {
        v.push(all[..n].concat());
        v.push(all[..n].iter().rev().cloned().collect());
    }
    v.sort();
    v.dedup();
    v
}
/// Many rules tried at one place, under many others.
fn many_rules() -> Vec<E> {
    let mut v = vec![];
    let r = E::R;
    for n in [2, 9, 10, 11, 12, 13, 16, 20] {
        let up = E::cho((0..n).map(r).collect());
        let down = E::cho((0..n).rev().map(r).collect());
        let nots = E::seq((0..n.min(19)).map(|i| E::neg(r(i))).chain([E::Any]).collect());
        let opts = E::seq((0..n).map(|i| E::opt(r(i))).collect());
        let under = E::cho((0..n).map(|i| E::Inst(i, Box::new(E::seq(vec![s("a"), r((i + 7) % 20)])))).collect());
        let both = E::cho((0..n).map(|i| E::Inst(i, Box::new(E::seq(vec![s("a"), E::neg(r(1)), r((i + 7) % 20)])))).collect());
        let drops = E::cho((0..n).map(|i| E::Inst(i, Box::new(E::seq(vec![s("a"), E::Drop])))).collect());
        let all = [up.clone(), down.clone(), nots.clone(), opts, under, both, drops, E::seq(vec![E::neg(up), down.clone()]), E::Inst(3, Box::new(E::seq(vec![s("a"), nots.clone(), down])))];
        for e in all {
            v.push(E::seq(vec![e.clone(), E::Eoi]));
            v.push(E::Inst(19, Box::new(e.clone())));
            v.push(E::seq(vec![E::rep(E::Nl, Tv::No, 0, None), e.clone()]));
            v.push(e);
        }
        // A tower of rules, moving on at one level.
        for k in 0..n {
            let mut e = E::neg(E::pos(s("b")));
            for i in (0..n).rev() {
                e = E::Inst(i, Box::new(if i == k { E::seq(vec![s("a"), e]) } else { e }));
            }
            v.push(e);
        }
    }
    v
}
/// Every list of attempts at one place, of rules that match the same.
fn attempts(n: usize) -> (Gram, Vec<E>) {
    let r = |name: &str, body| Rule { name: name.into(), body: Some(body), silent: false, base: None };
    let ab = || E::cho(vec![s("b"), s("a")]);
    let mut g = rules_gram();
    g.rules[0] = r("r0", s("a"));
    g.rules[1] = r("r1", ab());
    g.rules.push(r("r4", E::seq(vec![E::pos(s("a")), E::Any])));
    let then = |e: E| E::seq(vec![s("a"), e]);
    let items = [
        E::R(0),
        E::R(4),
        E::neg(E::R(0)),
        E::neg(E::R(1)),
        E::neg(E::R(4)),
        E::seq(vec![E::pos(E::R(1)), E::Fail]),
        E::neg(E::neg(E::R(1))),
        E::Drop,
        then(E::R(0)),
        then(E::R(4)),
        then(E::neg(E::R(1))),
        then(E::neg(E::R(4))),
        E::Inst(3, Box::new(then(E::neg(E::R(0))))),
        E::Inst(2, Box::new(then(E::cho(vec![E::R(4), E::R(0)])))),
    ];
    let mut v = vec![];
    for len in 2..=n {
        for mut i in 0..items.len().pow(len as u32) {
            let mut l = vec![];
            for _ in 0..len {
                // All fail, so that the next one is tried.
                l.push(E::seq(vec![items[i % items.len()].clone(), E::Fail]));
                i /= items.len();
            }
            v.push(E::cho(l));
        }
    }
    (g, v)
}
fn far_lines() -> Vec<String> {
    let mut v = vec![];
    for n in [0, 1, 8, 9, 10, 11, 98, 99, 100, 101] {
        for t in ["", "a", "b", "t", "ab", "ai", "az"] {
            v.push("\n".repeat(n) + t);
        }
    }
    v
}

fn main() {
    let (prop, deep, out) = args();
    let mut eng = Engine { name: format!("coremc:{prop}"), spaces: vec![] };
    let e = &mut eng;
    let d = |q: usize, t: usize| if deep { t } else { q };
    let uni = |n: usize| strings(&['a', 'é', '日', '😀', '\r', '\n'], n);
    let basic = |e: &mut Engine, what: What| {
        let l = levels(&a_match(false), d(5, 6));
        explore(e, what, Space { name: "matching".into(), grams: no_rules(), exprs: l[..5].iter().map(|x| &x[..]).collect(), inputs: ab(d(5, 7)), starts: vec![0], hists: vec![vec![]] });
        explore(e, what, Space { name: "matching, larger".into(), grams: no_rules(), exprs: l[5..].iter().map(|x| &x[..]).collect(), inputs: ab(4), starts: vec![0], hists: vec![vec![]] });
        drop(l);
        let l = levels(&a_match(true), d(3, 4));
        explore(e, what, Space { name: "matching, all terminals, Unicode input".into(), grams: no_rules(), exprs: l[..3].iter().map(|x| &x[..]).collect(), inputs: uni(d(4, 4)), starts: vec![0, 1, 2], hists: vec![vec![]] });
        explore(e, what, Space { name: "matching, all terminals, Unicode input, larger".into(), grams: no_rules(), exprs: l[3..].iter().map(|x| &x[..]).collect(), inputs: uni(d(3, 3)), starts: vec![0, 1], hists: vec![vec![]] });
        let bo = bounds();
        explore(e, what, Space { name: "repetition bounds".into(), grams: trivia_grams(deep), exprs: vec![&bo], inputs: strings(&['a', 'b', ' '], d(4, 5)), starts: vec![0], hists: hists(2) });
    };
    let recur = |e: &mut Engine, what: What| {
        let g = recursive(d(3, 4));
        let root = [E::R(0)];
        let parts = each(g.len(), 16, |i| format!("{what:?}: {:?}", g[i].rules), |i, p| {
            for inp in &ab(d(4, 5)) {
                case(p, what, &g[i], &root[0], inp, 0, &[]);
            }
        });
        e.add("mutually recursive rules", parts);
    };
    let trivia = |e: &mut Engine, what: What| {
        let l = levels(&a_trivia(), d(4, 5));
        explore(e, what, Space { name: "trivia".into(), grams: trivia_grams(true), exprs: l[..4].iter().map(|x| &x[..]).collect(), inputs: strings(&['a', 'b', ' '], d(4, 5)), starts: vec![0], hists: vec![vec![]] });
        explore(e, what, Space { name: "trivia, larger".into(), grams: trivia_grams(deep), exprs: l[4..].iter().map(|x| &x[..]).collect(), inputs: strings(&['a', ' '], d(5, 6)), starts: vec![0], hists: vec![vec![]] });
    };
    let stack = |e: &mut Engine, what: What| {
        let l = levels(&a_stack(), d(4, 5));
        explore(e, what, Space { name: "stack operators".into(), grams: no_rules(), exprs: l[..4].iter().map(|x| &x[..]).collect(), inputs: ab(4), starts: vec![0], hists: hists(12) });
        explore(e, what, Space { name: "stack operators, larger".into(), grams: no_rules(), exprs: l[4..].iter().map(|x| &x[..]).collect(), inputs: ab(d(3, 4)), starts: vec![0], hists: hists(d(3, 6)) });
        let p = programs(d(5, 6));
        let ins: Vec<String> = ["", "a", "abab", "aaaaaaa", "abcabca"].map(String::from).to_vec();
        explore(e, what, Space { name: "stack programs".into(), grams: no_rules(), exprs: p[..].iter().map(|x| &x[..]).collect(), inputs: ins, starts: vec![0], hists: hists(2) });
        let sl = slices();
        explore(e, what, Space { name: "stack slices".into(), grams: no_rules(), exprs: vec![&sl], inputs: ab(4), starts: vec![0], hists: all_hists(d(3, 4)) });
    };
    let rules = |e: &mut Engine, what: What| {
        let l = levels(&a_rules(), d(4, 5));
        let g = vec![rules_gram()];
        explore(e, what, Space { name: "rules".into(), grams: g.clone(), exprs: l[..5.min(l.len())].iter().map(|x| &x[..]).collect(), inputs: ab(4), starts: vec![0], hists: vec![vec![]] });
        if deep {
            explore(e, what, Space { name: "rules, larger".into(), grams: g.clone(), exprs: l[5..].iter().map(|x| &x[..]).collect(), inputs: ab(3), starts: vec![0], hists: vec![vec![]] });
        }
        let mut g2 = g;
        g2[0].rules[0].body = Some(E::Any);
        g2[0].rules[1].body = Some(E::cho(vec![s("\n"), s("é")]));
        explore(e, what, Space { name: "rules over several lines".into(), grams: g2, exprs: l[..4].iter().map(|x| &x[..]).collect(), inputs: strings(&['a', 'b', '\n', 'é'], d(3, 4)), starts: vec![0], hists: vec![vec![]] });
    };
    let wides = |e: &mut Engine, what: What| {
        for cho in [false, true] {
            let g = &trivia_grams(false)[0];
            let sets: Vec<(Vec<E>, Vec<String>)> = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20].iter().map(|n| (wide(*n, d(1, 2), cho, what == What::Pairs), wide_inputs(*n, cho))).collect();
            let ix: Vec<(usize, usize)> = sets.iter().enumerate().flat_map(|(k, s)| (0..s.0.len()).map(move |i| (k, i))).collect();
            let parts = each(ix.len(), 16, |i| plain(&sets[ix[i].0].0[ix[i].1]), |i, p| {
                let (k, j) = ix[i];
                for inp in &sets[k].1 {
                    case(p, what, g, &sets[k].0[j], inp, 0, &[]);
                }
            });
            e.add(if cho { "choices of 2..=17 and 20 alternatives" } else { "sequences of 2..=17 and 20 parts" }, parts);
        }
    };
    let far = |e: &mut Engine, what: What| {
        let (g, no) = (trivia_grams(false).remove(0), vec![vec![]]);
        let g = deep_gram(g);
        let m = many_times(what == What::Never);
        explore(e, what, Space { name: format!("every bound up to {FAR}, long texts"), grams: vec![g.clone()], exprs: vec![&m], inputs: long_runs(), starts: vec![0], hists: vec![vec![], vec![Op::Push("a"); 12]] });
        if what == What::Never {
            return;
        }
        let t = towers();
        let ins: Vec<String> = ["", "a", "b", "aaaaaaaaaaaaab", "aaaabbbb", "abababababab", "aaaaaaaaaaaaaaaaaaaaaaaaaa"].map(String::from).to_vec();
        explore(e, what, Space { name: "towers of 7 and 12 operators".into(), grams: vec![g.clone()], exprs: vec![&t], inputs: ins, starts: vec![0], hists: no.clone() });
        if what == What::Errors || what == What::Agree || what == What::Pairs {
            let m = many_rules();
            explore(e, what, Space { name: "up to 20 rules, up to 101 lines".into(), grams: vec![g.clone()], exprs: vec![&m], inputs: far_lines(), starts: vec![0], hists: no.clone() });
        }
        if what == What::Stack || what == What::Agree || what == What::Tree {
            let m = far_slices();
            explore(e, what, Space { name: "stacks and journals of many entries".into(), grams: vec![g], exprs: vec![&m], inputs: stack_texts(), starts: vec![0], hists: long_hists() });
        }
    };
    match prop.as_str() {
        "C01" => {
            far(e, What::Lang);
            basic(e, What::Lang);
            recur(e, What::Lang);
        }
        "C02" => {
            far(e, What::Agree);
            basic(e, What::Agree);
            stack(e, What::Agree);
            trivia(e, What::Agree);
            rules(e, What::Agree);
            recur(e, What::Agree);
        }
        "C03" => {
            far(e, What::Stack);
            stack(e, What::Stack);
            let l = levels(&a_stack(), 3);
            explore(e, What::Stack, Space { name: "every short stack history".into(), grams: no_rules(), exprs: l.iter().map(|x| &x[..]).collect(), inputs: ab(2), starts: vec![0], hists: all_hists(d(4, 5)) });
            let bo = bounds();
            explore(e, What::Stack, Space { name: "repetition bounds".into(), grams: trivia_grams(deep), exprs: vec![&bo], inputs: strings(&['a', 'b', ' '], d(3, 4)), starts: vec![0], hists: hists(d(4, 12)) });
        }
        "C04" => {
            far(e, What::Whole);
            basic(e, What::Whole);
            rules(e, What::Whole);
            recur(e, What::Whole);
            let l = levels(&a_stack(), 4);
            explore(e, What::Whole, Space { name: "stack operators".into(), grams: no_rules(), exprs: l.iter().map(|x| &x[..]).collect(), inputs: ab(d(3, 5)), starts: vec![0], hists: vec![vec![]] });
        }
        "C05" => {
            far(e, What::Tree);
            basic(e, What::Tree);
            rules(e, What::Tree);
            recur(e, What::Tree);
            trivia(e, What::Tree);
            let l = levels(&a_stack(), d(4, 4));
            explore(e, What::Tree, Space { name: "stack operators".into(), grams: no_rules(), exprs: l.iter().map(|x| &x[..]).collect(), inputs: ab(4), starts: vec![0], hists: hists(d(3, 12)) });
        }
        "C06" => {
            far(e, What::Pairs);
            rules(e, What::Pairs);
            recur(e, What::Pairs);
            wides(e, What::Pairs);
        }
        "C08" => {
            far(e, What::Errors);
            let (g, v) = attempts(4);
            explore(e, What::Errors, Space { name: "every list of attempts at one place".into(), grams: vec![g], exprs: vec![&v], inputs: ab(d(2, 4)), starts: vec![0], hists: vec![vec![]] });
            rules(e, What::Errors);
            recur(e, What::Errors);
            trivia(e, What::Errors);
        }
        "C09" => {
            uni::chars(e);
            let l = levels(&a_match(true), 1);
            for w in [What::Lang, What::Agree, What::Tree] {
                explore(e, w, Space { name: format!("text primitives ({w:?})"), grams: no_rules(), exprs: vec![&l[1]], inputs: uni(d(4, 6)), starts: (0..d(12, 20)).collect(), hists: vec![vec![]] });
            }
        }
        "C14" => {
            far(e, What::Lang);
            trivia(e, What::Lang);
            let l = levels(&a_trivia(), 3);
            explore(e, What::Tree, Space { name: "trivia leave no trace in the tree".into(), grams: trivia_grams(true), exprs: l.iter().map(|x| &x[..]).collect(), inputs: strings(&['a', 'b', ' '], d(4, 5)), starts: vec![0], hists: vec![vec![]] });
        }
        "C17" => uni::all(e),
        "C18" => {
            let lits = ["", "a", "A", "aB", "é", "É", "aé", "éa", "K", "S", "k", "s", "ab", " ", "-", "日", "\r\n"];
            let mut ex = vec![];
            for l in lits {
                let i = E::Ins(l.into());
                ex.push(E::seq(vec![i.clone(), E::Any]));
                ex.push(E::neg(i.clone()));
                ex.push(E::rep(i.clone(), Tv::No, 0, Some(3)));
                ex.push(E::cho(vec![i.clone(), E::Any]));
                ex.push(i);
            }
            let ins = strings(&['a', 'A', 'b', 'B', 'é', 'É', '\u{212a}', '\u{17f}', 'k', 'K', 's', '[', '{', '@', '`', ' '], d(3, 4));
            for w in [What::Lang, What::Tree] {
                explore(e, w, Space { name: format!("case-insensitive terminals ({w:?})"), grams: no_rules(), exprs: vec![&ex], inputs: ins.clone(), starts: vec![0], hists: vec![vec![]] });
            }
        }
        "C19" => {
            wides(e, What::Lang);
            wides(e, What::Tree);
            wides(e, What::Agree);
        }
        "C20" => {
            far(e, What::Never);
            let mut ex = vec![];
            let l = levels(&a_match(false), d(4, 5));
            let l2 = levels(&a_stack(), d(3, 4));
            let l3 = levels(&a_trivia(), d(2, 3));
            for (k, ls) in [&l, &l2, &l3].into_iter().enumerate() {
                for x in ls.iter().flatten() {
                    for (j, hi) in [None, Some(0), Some(1), Some(2), Some(3)].into_iter().enumerate() {
                        for t in [Tv::No, Tv::Opt(0), Tv::Man(0)] {
                            if k == 2 || (t == Tv::No && (j < 3 || x.size() < 3)) {
                                ex.push(E::rep(x.clone(), t, 0, hi));
                            }
                        }
                    }
                }
            }
            let (nostk, stk): (Vec<E>, Vec<E>) = ex.into_iter().partition(|x| !uses_stack(&no_rules()[0], x));
            let g = trivia_grams(true);
            explore(e, What::Never, Space { name: "never-failing repetitions".into(), grams: vec![g[0].clone(), g[2].clone()], exprs: vec![&nostk], inputs: strings(&['a', 'b', ' '], d(3, 4)), starts: vec![0, 1], hists: vec![vec![]] });
            explore(e, What::Never, Space { name: "never-failing repetitions with the stack".into(), grams: vec![g[6].clone()], exprs: vec![&stk], inputs: ab(3), starts: vec![0], hists: hists(12) });
        }
        "C24" => {
            let one = || vec![vec![]];
            let l = levels(&a_match(true), d(3, 4));
            explore(e, What::Value, Space { name: "nodes of all terminals and operators".into(), grams: no_rules(), exprs: l[..3].iter().map(|x| &x[..]).collect(), inputs: strings(&['a', 'é', '日', '\r', '\n'], d(3, 4)), starts: vec![0], hists: one() });
            explore(e, What::Value, Space { name: "nodes of all terminals and operators, larger".into(), grams: no_rules(), exprs: l[3..].iter().map(|x| &x[..]).collect(), inputs: ["aaa", "aéb", "a\r\n", "abab", "日😀"].map(String::from).to_vec(), starts: vec![0], hists: one() });
            let l = levels(&a_stack(), d(4, 5));
            explore(e, What::Value, Space { name: "nodes of stack operators".into(), grams: no_rules(), exprs: l.iter().map(|x| &x[..]).collect(), inputs: ["", "a", "abab", "aabb"].map(String::from).to_vec(), starts: vec![0], hists: one() });
            let bo = bounds();
            explore(e, What::Value, Space { name: "nodes of bounded repetitions".into(), grams: trivia_grams(deep), exprs: vec![&bo], inputs: strings(&['a', 'b', ' '], d(4, 5)), starts: vec![0], hists: one() });
            let l = levels(&a_trivia(), d(3, 4));
            explore(e, What::Value, Space { name: "nodes with trivia".into(), grams: trivia_grams(true), exprs: l.iter().map(|x| &x[..]).collect(), inputs: strings(&['a', ' '], d(4, 5)), starts: vec![0], hists: one() });
            let l = levels(&a_rules(), d(3, 4));
            explore(e, What::Value, Space { name: "nodes of rules".into(), grams: vec![rules_gram()], exprs: l.iter().map(|x| &x[..]).collect(), inputs: ab(d(4, 5)), starts: vec![0], hists: one() });
            // Nodes that differ in exactly one place, whichever it is.
            let ns = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20];
            let letter = |i: usize| ((b'a' + i as u8) as char).to_string();
            let parts = each(ns.len(), 1, |i| format!("{} parts", ns[i]), |i, p| {
                let n = ns[i];
                let (one, two) = (E::seq(vec![E::Any; n]), E::seq((0..n).map(|_| E::cho(vec![s("a"), E::Rng('a', 'b')])).collect()));
                let (rep, tr) = (E::rep(E::Any, Tv::No, n.min(13), Some(n.min(13))), E::Seq((0..n).map(|k| (if k == 0 { Tv::No } else { Tv::Opt(0) }, E::Any)).collect()));
                for x in [one, two, rep, tr] {
                    for a in 0..=n {
                        case(p, What::Value, &trivia_grams(false)[0], &x, &format!("{}b{}", "a".repeat(a), "a".repeat(2 * n - a)), 0, &[]);
                    }
                    case(p, What::Value, &trivia_grams(true)[2], &x, &format!("{}b{}", "a".repeat(n), "a".repeat(n)), 0, &[]);
                }
                let c = E::cho((0..n).map(|k| E::seq(vec![E::s(&letter(k)), E::Any])).collect());
                let t: String = (0..n).map(|k| format!("{0}y{0}z{0}y", letter(k))).collect();
                case(p, What::Value, &no_rules()[0], &c, &t, 0, &[]);
                let c = E::cho((0..n).map(|k| E::seq(vec![E::pos(E::s(&letter(k))), E::Any])).collect());
                case(p, What::Value, &no_rules()[0], &c, &t, 0, &[]);
            });
            e.add("sequences, repetitions and choices of 2..=17 and 20, differing in one place", parts);
            let t = towers();
            explore(e, What::Value, Space { name: "towers of 7 and 12 operators".into(), grams: vec![deep_gram(trivia_grams(false).remove(0))], exprs: vec![&t], inputs: ["aaaabbbb", "ab"].map(String::from).to_vec(), starts: vec![0], hists: one() });
        }
        _ => panic!("no such property here"),
    }
    eng.finish(&out)
}
