//! Model checking of the reader of grammar texts (C11, C12): a reference reader and the real one
//! run on every text of bounded spaces.
mod model;
use model::*;
use pest3_meta::parser::{self as real, Import as RI, ParseExpr as RE, ParseNode, PathArgs, Trivia};
use std::path::Path;
use vref::evid::{args, Engine, Part};
use vref::par::{each, guard, strings};

/// Where the end of a node may be recorded: from `e` up to the next thing that is not white
/// space or a comment.
fn tail(t: &str, e: usize) -> usize {
    let mut p = e;
    loop {
        let r = &t[p..];
        if r.starts_with([' ', '\t', '\n', '\r']) {
            p += 1;
        } else if r.starts_with("//") {
            p += r.find('\n').unwrap_or(r.len());
        } else if r.starts_with("/*") {
            // Nested comments.
            let (mut d, mut i) = (0, 0);
            loop {
                if r[i..].starts_with("/*") {
                    d += 1;
                    i += 2;
                } else if r[i..].starts_with("*/") {
                    d -= 1;
                    i += 2;
                    if d == 0 {
                        break;
                    }
                } else {
                    match r[i..].chars().next() {
                        Some(c) => i += c.len_utf8(),
                        None => break,
                    }
                }
            }
            p += i;
        } else {
            return p;
        }
    }
}

type D = Result<(), String>;
macro_rules! ne {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

fn node(t: &str, n: &N, r: &ParseNode) -> D {
    let two = |a: &N, b: &N, x: &ParseNode, y: &ParseNode| node(t, a, x).and_then(|_| node(t, b, y));
    let tv = |a: T, b: &Trivia| {
        matches!((a, b), (T::No, Trivia::None) | (T::Opt, Trivia::Optional) | (T::Man, Trivia::Mandatory))
    };
    let leaf = matches!(n.x, X::Str(_) | X::Ins(_) | X::Rng(..) | X::Path(..));
    if leaf && (r.span.start != n.s || r.span.end < n.e || r.span.end > tail(t, n.e)) {
        ne!("`{}` stands at {}..{}, recorded as {}..{}", &t[n.s..n.e], n.s, n.e, r.span.start, r.span.end);
    }
    if r.span.start > n.s || r.span.end < n.e {
        ne!("`{}` covers {}..{}, recorded as {}..{}", &t[n.s..n.e], n.s, n.e, r.span.start, r.span.end);
    }
    match (&n.x, &r.expr) {
        (X::Str(a), RE::Str(b)) | (X::Ins(a), RE::Insens(b)) if a == b => Ok(()),
        (X::Rng(a, b), RE::Range(c, d)) if (a, b) == (c, d) => Ok(()),
        (X::Path(a, b), RE::Path(c, d)) if a == c => match (b, d) {
            (None, None) => Ok(()),
            (Some(Args::Slice(a, b)), Some(PathArgs::Slice(r))) if *a == r.start && *b == r.end => Ok(()),
            (Some(Args::Call(a)), Some(PathArgs::Call(b))) if a.len() == b.len() => {
                a.iter().zip(b).try_for_each(|(a, b)| node(t, a, b))
            }
            _ => ne!("arguments {b:?} read as {d:?}"),
        },
        (X::Pos(a), RE::PosPred(b))
        | (X::Neg(a), RE::NegPred(b))
        | (X::Opt(a), RE::Opt(b))
        | (X::Rep(a), RE::Rep(b))
        | (X::Rep1(a), RE::RepOnce(b)) => node(t, a, b),
        (X::RepN(a, lo, hi), RE::RepRange(b, r)) if *lo == r.start && *hi == r.end => node(t, a, b),
        (X::Sep(a, k), RE::Separated(b, l)) if tv(*k, l) => node(t, a, b),
        (X::Seq(a, b, k), RE::Seq(c, d, l)) if tv(*k, l) => two(a, b, c, d),
        (X::Cho(a, b), RE::Choice(c, d)) => two(a, b, c, d),
        _ => ne!("`{}` must be {:?}, read as {:?}", &t[n.s..n.e], n.x, r.expr),
    }
}

fn file(t: &str, f: &File, m: &real::GrammarModule) -> D {
    if f.doc != m.doc.grammar_doc {
        ne!("grammar docs {:?} read as {:?}", f.doc, m.doc.grammar_doc);
    }
    let is: Vec<(String, Vec<String>)> = m
        .imports
        .iter()
        .map(|i| match i {
            RI::Builtin(a, p) => (a.clone(), p.clone()),
            RI::File(a, _) => (a.clone(), vec!["<file>".into()]),
        })
        .collect();
    let want: Vec<_> = f.imports.iter().map(|i| (i.alias.clone(), i.path.clone())).collect();
    if want != is {
        ne!("imports {want:?} read as {is:?}");
    }
    if f.rules.len() != m.rules.len() {
        ne!("{} rules read as {}", f.rules.len(), m.rules.len());
    }
    for (a, b) in f.rules.iter().zip(&m.rules) {
        if a.name != b.name || a.args != b.args || a.silent != b.silent || a.doc != b.doc {
            ne!(
                "rule {:?} {:?} silent={} doc={:?} read as {:?} {:?} silent={} doc={:?}",
                a.name, a.args, a.silent, a.doc, b.name, b.args, b.silent, b.doc
            );
        }
        if b.span.start != a.s || b.span.end < a.e || b.span.end > tail(t, a.e) {
            ne!("rule {} stands at {}..{}, recorded as {}..{}", a.name, a.s, a.e, b.span.start, b.span.end);
        }
        node(t, &a.n, &b.node)?;
    }
    Ok(())
}

/// Line and column of a byte offset, both from 1; columns count characters.
fn line_col(t: &str, p: usize) -> (usize, usize) {
    let b = &t[..p];
    let s = b.rfind('\n').map_or(0, |i| i + 1);
    (b.matches('\n').count() + 1, b[s..].chars().count() + 1)
}

/// C25: where errors point, not what is read.
static PLACES: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
fn places() -> bool {
    *PLACES.get().unwrap()
}

type PestError<R> = pest2::error::Error<R>;
/// First and last byte offset of an error; its line and column have to fit.
fn spot<R: pest2::RuleType>(t: &str, e: &PestError<R>) -> Result<(usize, usize), String> {
    use pest2::error::{InputLocation as I, LineColLocation as L};
    let (s, n) = match e.location {
        I::Span(x) => x,
        I::Pos(x) => (x, x),
    };
    if s > n || !t.is_char_boundary(s) || !t.is_char_boundary(n) {
        ne!("the error points at {s}..{n}: {e}");
    }
    let (L::Pos(a) | L::Span(a, _)) = e.line_col;
    if a != line_col(t, s) {
        ne!("the error points at {s}, which is {:?}, but says {a:?}", line_col(t, s));
    }
    Ok((s, n))
}

/// The error has to point at one of the constructs at fault.
fn place<R: pest2::RuleType>(t: &str, f: &[Fault], e: &PestError<R>) -> D {
    let (s, n) = spot(t, e)?;
    if !f.iter().any(|x| x.s == s && x.e <= n && n <= tail(t, x.e)) {
        let at: Vec<_> = f.iter().map(|x| &t[x.s..x.e]).collect();
        ne!("at fault are {at:?}, the error points at {s}..{n}: {e}")
    }
    Ok(())
}

/// The error has to point at the first token that does not fit.
fn syntax<R: pest2::RuleType>(t: &str, far: usize, e: &PestError<R>) -> D {
    let (s, _) = spot(t, e)?;
    if s != far {
        ne!("it cannot be read on at {far}, the error points at {s}: {e}");
    }
    Ok(())
}

fn check(p: &mut Part, t: &str, key: impl Fn() -> String) {
    p.evaluations += 1;
    let want = read(t);
    guard(p, t.len() as u64, || key(), |p| {
        let got = real::parse(t, &Path::new("/nonexistent/grammar.pest"));
        p.traces += 1;
        p.states += 1;
        p.transitions += t.len() as u64;
        match (&want, &got) {
            (Ans::Open, _) => p.outcome("left open"),
            (Ans::Err(far), Err(e)) => {
                p.outcome("rejected");
                if !places() {
                    return;
                }
                p.nontrivial += (*far > 0) as u64;
                if let Err(d) = syntax(t, *far, e) {
                    p.viol(t.len() as u64, &key, || format!("text {t:?}: {d}"));
                }
            }
            (Ans::Bad(f), Err(e)) => {
                p.outcome("rejected for its meaning");
                if !places() {
                    return;
                }
                p.nontrivial += 1;
                p.sample(3, || format!("{t:?}"));
                if let Err(d) = place(t, f, e) {
                    p.viol(t.len() as u64, &key, || format!("text {t:?}: {d}"));
                }
            }
            (Ans::Ok(_), Ok(_)) if places() => p.outcome("accepted"),
            (Ans::Ok(f), Ok(m)) => {
                p.nontrivial += 1;
                p.outcome("accepted");
                p.sample(3, || format!("{t:?}"));
                if let Err(e) = file(t, f, m) {
                    p.viol(t.len() as u64, &key, || format!("text {t:?}: {e}"));
                }
            }
            (Ans::Ok(f), Err(_)) if f.imports.iter().any(|i| i.path[0] != "pest") => p.outcome("import of a missing file"),
            (Ans::Ok(f), Err(e)) => {
                p.viol(t.len() as u64, &key, || format!("text {t:?} is {f:?} but rejected: {e}"))
            }
            (Ans::Err(_) | Ans::Bad(_), Ok(m)) => {
                p.viol(t.len() as u64, &key, || format!("text {t:?} must be rejected, read as {:?}", m.rules))
            }
        }
    });
}

fn texts(eng: &mut Engine, name: &str, ts: &[String]) {
    let parts = each(ts.len(), 64, |i| format!("text {:?}", ts[i]), |i, p| check(p, &ts[i], || format!("text {:?}", ts[i])));
    eng.add(format!("{name}: {} texts", ts.len()), parts);
}

/// All token strings of length 0..=max put between `pre` and `post`, joined with `sep`.
fn tokens(eng: &mut Engine, name: &str, toks: &[&str], max: usize, pre: &str, post: &str, sep: &str) {
    let k = toks.len();
    let mut offs = vec![0usize];
    for n in 0..=max {
        offs.push(offs[n] + k.pow(n as u32));
    }
    let make = |i: usize| {
        let n = (0..=max).find(|n| i < offs[n + 1]).unwrap();
        let mut j = i - offs[n];
        let mut v = vec![];
        for _ in 0..n {
            v.push(toks[j % k]);
            j /= k;
        }
        v.reverse();
        format!("{pre}{}{post}", v.join(sep))
    };
    let total = offs[max + 1];
    let parts = each(total, 256, |i| format!("text {:?}", make(i)), |i, p| {
        let t = make(i);
        check(p, &t, || format!("text {t:?}"));
    });
    eng.add(format!("{name}: all strings of up to {max} of {toks:?} between {pre:?} and {post:?}, joined by {sep:?}"), parts);
}

/// Expression trees of the abstract syntax, written in the layouts below.
fn trees(max: usize) -> Vec<Vec<X>> {
    let n = |x: X| Box::new(N { x, s: 0, e: 0 });
    let leaves = vec![
        X::Path(vec!["a".into()], None),
        X::Str("x".into()),
        X::Path(vec!["m".into(), "b".into()], Some(Args::Slice(Some(-1), Some(2)))),
    ];
    let mut l: Vec<Vec<X>> = vec![vec![], leaves];
    for k in 2..=max {
        let mut v = vec![];
        for x in &l[k - 1] {
            let b = || n(x.clone());
            let sep = |t| n(X::Sep(b(), t));
            v.extend([
                X::Pos(b()),
                X::Neg(b()),
                X::Opt(b()),
                X::Rep(b()),
                X::Rep1(sep(T::Man)),
                X::RepN(b(), Some(2), Some(3)),
                X::RepN(sep(T::Opt), None, Some(2)),
                X::Path(vec!["f".into()], Some(Args::Call(vec![*b()]))),
            ]);
        }
        for i in 1..k - 1 {
            for x in &l[i] {
                for y in &l[k - 1 - i] {
                    let (x, y) = (|| n(x.clone()), || n(y.clone()));
                    v.extend([
                        X::Seq(x(), y(), T::No),
                        X::Seq(x(), y(), T::Opt),
                        X::Seq(x(), y(), T::Man),
                        X::Cho(x(), y()),
                    ]);
                }
            }
        }
        l.push(v);
    }
    l
}

#[derive(Clone, Copy)]
struct Lay {
    /// Between tokens.
    sp: &'static str,
    /// Put every operand in parentheses.
    all: bool,
    braces: bool,
    lead: bool,
}

fn write(x: &X, lvl: u8, l: &Lay) -> String {
    // 0 choice, 1 sequence, 2 prefix, 3 postfix operand
    let sp = l.sp;
    let (own, s) = match x {
        X::Str(s) => (4, format!("\"{s}\"")),
        X::Ins(s) => (4, format!("i\"{s}\"")),
        X::Rng(a, b) => (4, format!("'{a}'{sp}..{sp}'{b}'")),
        X::Path(p, a) => (
            4,
            p.join(&format!("{sp}::{sp}"))
                + &match a {
                    None => String::new(),
                    Some(Args::Call(v)) => format!(
                        "{sp}({sp}{}{sp}{})",
                        v.iter().map(|n| write(&n.x, 0, l)).collect::<Vec<_>>().join(","),
                        if l.all { "," } else { "" }
                    ),
                    Some(Args::Slice(a, b)) => format!(
                        "{sp}[{sp}{}{sp}..{sp}{}{sp}]",
                        a.map_or(String::new(), |a| a.to_string()),
                        b.map_or(String::new(), |a| a.to_string())
                    ),
                },
        ),
        X::Pos(n) => (2, format!("&{sp}{}", write(&n.x, 2, l))),
        X::Neg(n) => (2, format!("!{sp}{}", write(&n.x, 2, l))),
        X::Seq(a, b, t) => {
            let o = ["-", "~", "^"][*t as usize];
            // Right-associative: a left operand that is a sequence needs parentheses.
            (1, format!("{}{sp}{o}{sp}{}", write(&a.x, 2, l), write(&b.x, 1, l)))
        }
        X::Cho(a, b) => (0, format!("{}{sp}|{sp}{}", write(&a.x, 1, l), write(&b.x, 0, l))),
        X::Opt(n) => (3, format!("{}{sp}?", post(n, l))),
        X::Rep(n) => (3, format!("{}{sp}*", post(n, l))),
        X::Rep1(n) => (3, format!("{}{sp}+", post(n, l))),
        X::RepN(n, a, b) => (
            3,
            format!(
                "{}{sp}{{{sp}{}{sp}..{sp}{}{sp}}}",
                post(n, l),
                a.map_or(String::new(), |a| a.to_string()),
                b.map_or(String::new(), |a| a.to_string())
            ),
        ),
        X::Sep(..) => unreachable!(),
    };
    if own < lvl || (l.all && own < 4 && lvl > 0) {
        format!("({sp}{s}{sp})")
    } else {
        s
    }
}
fn post(n: &N, l: &Lay) -> String {
    match &n.x {
        X::Sep(m, t) => format!("{}{}{}", write(&m.x, 3, l), l.sp, ["", "~", "^"][*t as usize]),
        x => write(x, 3, l),
    }
}

/// The same tree with all positions forgotten.
fn bare(n: &N) -> N {
    let b = |n: &N| Box::new(bare(n));
    let x = match &n.x {
        X::Path(p, Some(Args::Call(v))) => X::Path(p.clone(), Some(Args::Call(v.iter().map(bare).collect()))),
        X::Pos(a) => X::Pos(b(a)),
        X::Neg(a) => X::Neg(b(a)),
        X::Seq(a, c, t) => X::Seq(b(a), b(c), *t),
        X::Cho(a, c) => X::Cho(b(a), b(c)),
        X::Opt(a) => X::Opt(b(a)),
        X::Rep(a) => X::Rep(b(a)),
        X::Rep1(a) => X::Rep1(b(a)),
        X::RepN(a, l, h) => X::RepN(b(a), *l, *h),
        X::Sep(a, t) => X::Sep(b(a), *t),
        x => x.clone(),
    };
    N { x, s: 0, e: 0 }
}

fn roundtrip(eng: &mut Engine, max: usize) {
    let lays = [
        Lay { sp: " ", all: false, braces: false, lead: false },
        Lay { sp: "", all: false, braces: true, lead: false },
        Lay { sp: "\r\n\t", all: true, braces: false, lead: true },
        Lay { sp: "/* \" { */", all: false, braces: true, lead: true },
        Lay { sp: " // ' ( \n", all: false, braces: false, lead: false },
    ];
    let l = trees(max);
    let all: Vec<&X> = l.iter().flatten().collect();
    let parts = each(all.len(), 16, |i| format!("tree {:?}", all[i]), |i, p| {
        for (j, lay) in lays.iter().enumerate() {
            let mut body = write(all[i], 0, lay);
            if lay.lead && matches!(all[i], X::Cho(l, _) if !matches!(l.x, X::Seq(..))) {
                body = format!("|{}{body}", lay.sp);
            }
            let t = if lay.braces { format!("r={{{}{body}}}", lay.sp) } else { format!("r{}={}{body}", lay.sp, lay.sp) };
            // The model has to read back the tree it was given: this binds writer and reader.
            match read(&t) {
                Ans::Ok(f) if bare(&f.rules[0].n).x == bare(&N { x: all[i].clone(), s: 0, e: 0 }).x => (),
                x => panic!("model and writer disagree on {t:?}: {x:?}"),
            }
            check(p, &t, || format!("tree in layout {j}: {t:?}"));
        }
    });
    eng.add(format!("all expression trees of size up to {max} in {} layouts", lays.len()), parts);
}

fn c11(eng: &mut Engine, deep: bool) {
    let d = |q, t| if deep { t } else { q };
    let ops = ["a", "\"s\"", "(", ")", "&", "-", "~", "|", "*", "{2}"];
    tokens(eng, "operators", &ops, d(6, 7), "r = ", "", " ");
    let ops = ["a", "(", ")", "!", "^", "|", "?", "+", "::", "[0..]", ","];
    tokens(eng, "operators", &ops, d(6, 7), "r=", "", "");
    let ops = ["a", "~", "^", "|", "-", "*", "="];
    tokens(eng, "operators", &ops, d(7, 9), "r = a ", " b", " ");
    let top = ["a", "=", "_", "(", ")", "{", "}", "~", ",", "use ", "::", "as", "///d\n", "//!d\n", "pest", "in \"f\""];
    tokens(eng, "rules", &top, d(4, 5), "", "", " ");
    tokens(eng, "rules", &top, d(4, 5), "a = b ", "= c", "");
    tokens(eng, "rules", &top, d(3, 4), "a = b use pest::", " c = c", " ");
    let com = ["/", "*", "!", "\n", "a", "\""];
    tokens(eng, "comments", &com, d(7, 9), "r = a ", " x = y", "");
    tokens(eng, "comments", &com, d(7, 8), "", "r = a", "");
    let com = ["/*", "*/", "//", "\n", "\r\n", "\r", "*", " "];
    tokens(eng, "comments", &com, d(5, 7), "r = a", " x = y", "");
    let docs = ["///", "//!", "//", " ", "é", "\n", "\r\n"];
    tokens(eng, "documentation", &docs, d(7, 8), "", "\nr = a", "");
    tokens(eng, "documentation", &docs, d(6, 7), "r = a\n", "\nx = b", "");
    let ids = ["_", "a", "Z", "0", "9", "é", "-"];
    tokens(eng, "identifiers", &ids, d(6, 7), "", " = x", "");
    tokens(eng, "identifiers", &ids, d(6, 7), "x = ", "", "");
    let words = ["use ", "use", "pest", "as", "in", "::", " ", "\n", "x", "=", "r", "i"];
    tokens(eng, "words", &words, d(5, 6), "", "y = z", "");
    let nums = ["", "0", "1", "2", "3", "7", "10", "01", "-1", "+1", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999999999999999999999999", "a"];
    let mut ts = vec![];
    for a in nums {
        for b in nums {
            for (o, c) in [("{", "}"), ("[", "]"), ("{ ", "\n}"), ("[ ", " ]"), ("~{", "}"), ("{", "]")] {
                for dots in ["..", " .. ", "", ".", "...", "-", ","] {
                    ts.push(format!("r = a{o}{a}{dots}{b}{c}"));
                }
            }
        }
    }
    texts(eng, "bounds and slices", &ts);
    roundtrip(eng, d(5, 6));
    let pars = ["(", ")", "a", "-", "|"];
    tokens(eng, "parentheses", &pars, d(8, 10), "r = ", "", " ");
    let args = ["a", "(", ")", ",", "::", "!", "~"];
    tokens(eng, "arguments", &args, d(7, 8), "r = f(", ") b = c", "");
    let pars = ["x", "y", ",", "(", ")", " ", "="];
    tokens(eng, "parameters", &pars, d(6, 7), "r", "= x", "");
    // Chains of operators.
    let chain = |of: &[&str], most: usize| {
        let mut all = vec![String::new()];
        let mut last = all.clone();
        for _ in 0..most {
            last = last.iter().flat_map(|l| of.iter().map(move |o| format!("{l}{o}"))).collect();
            all.extend(last.iter().cloned());
        }
        all
    };
    let ts: Vec<String> = chain(&["-a", "~b", "^c", "|d"], d(8, 10)).iter().map(|c| format!("r=a{c}")).collect();
    texts(eng, "chains of infix operators", &ts);
    let (pre, post) = (chain(&["!", "&"], d(3, 4)), chain(&["?", "*", "+", "{2}", "~*", "^+", "~{1..}", "^{..2}"], d(4, 5)));
    let ts: Vec<String> = pre.iter().flat_map(|a| post.iter().map(move |z| format!("r={a}a{z}|b"))).collect();
    texts(eng, "chains of prefix and postfix operators", &ts);
    // Deep nesting neither crashes nor hangs.
    let mut ts = vec![];
    for n in 1..=d(16, 20) {
        for (o, c) in [("(", ")"), ("!", ""), ("&", ""), ("f(", ")"), ("", "?"), ("", "~*"), ("a | ", ""), ("a - ", ""), ("", " ~ a"), ("(a | ", ")"), ("|", "")] {
            ts.push(format!("r = {}a{}", o.repeat(n), c.repeat(n)));
        }
    }
    texts(eng, "nesting", &ts);
}

fn c12(eng: &mut Engine, deep: bool) {
    let d = |q, t| if deep { t } else { q };
    let a = ["a", "\\", "\"", "'", "n", "0", "x", "u", "{", "}", "é", "\n"];
    tokens(eng, "string bodies", &a, d(5, 6), "r = \"", "\"", "");
    tokens(eng, "insensitive bodies", &a, d(4, 5), "r = i\"", "\"", "");
    tokens(eng, "range bodies", &a, d(4, 5), "r = '", "'..'z'", "");
    tokens(eng, "range bodies", &a, d(4, 5), "r = 'a'..'", "'", "");
    let a = ["#", "\"", "a", "\\", "\n", "日", "r", "'"];
    tokens(eng, "raw bodies", &a, d(6, 7), "r = r", "", "");
    tokens(eng, "raw bodies", &a, d(5, 6), "r = r\"", "\"", "");
    tokens(eng, "raw bodies", &a, d(5, 6), "r = r#\"", "\"#", "");
    tokens(eng, "raw bodies", &a, d(4, 5), "r = r##\"", "\"## - \"x\"", "");
    let a = ["\\x", "\\u{", "}", "0", "7", "8", "f", "F", "g", "10ffff", "110000", "d7ff", "d800", "dfff", "e000", " "];
    tokens(eng, "escapes", &a, d(4, 5), "r = \"", "\"", "");
    tokens(eng, "escapes", &a, d(3, 4), "r = i\"", "\"", "");
    tokens(eng, "escapes", &a, d(3, 4), "r = 'a'..'", "'", "");
    // Every single-character escape and every byte escape.
    let mut ts = vec![];
    for c in 0..128u8 {
        let c = c as char;
        for (o, e) in [("\"", "\""), ("i\"", "\""), ("'", "'..'z'"), ("'a'..'", "'"), ("r\"", "\"")] {
            ts.push(format!("r = {o}\\{c}{e}"));
            ts.push(format!("r = {o}a\\{c}b{e}"));
            for k in 0..128u8 {
                if k.is_ascii_hexdigit() || c.is_ascii_hexdigit() {
                    ts.push(format!("r = {o}\\x{c}{}{e}", k as char));
                }
            }
        }
    }
    texts(eng, "every short escape", &ts);
    // Every character code, in every form.
    let codes = 0x110400usize;
    let parts = each(codes, 256, |i| format!("code {i:x}"), |i, p| {
        let mut ts = vec![format!("r = \"\\u{{{i:x}}}\""), format!("r = '\\u{{{i:06X}}}'..'\\u{{{i:X}}}'")];
        if deep {
            ts.push(format!("r = i\"a\\u{{{i:05x}}}b\""));
            ts.push(format!("r = \"\\u{{{i:07x}}}\""));
        }
        if let Some(c) = char::from_u32(i as u32) {
            ts.push(format!("r = '{c}'..'{c}' - \"{}\"", if c == '"' || c == '\\' { 'q' } else { c }));
            if deep {
                ts.push(format!("r = r\"{c}\" - i\"{}\"", if c == '"' || c == '\\' { 'q' } else { c }));
            }
        }
        for t in ts {
            check(p, &t, || format!("text {t:?}"));
        }
    });
    eng.add("every character code as an escape and as itself", parts);
    let a: Vec<char> = "a\"\\'é日😀{}#x0\n\r\t".chars().collect();
    let ts: Vec<String> = strings(&a, 3)
        .iter()
        .flat_map(|s| {
            let u: String = s.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect();
            [format!("r = \"{u}\""), format!("r = i\"{u}\""), format!("r = r##\"{s}\"##"), format!("r = \"{}\"", vref::expr::esc(s))]
        })
        .collect();
    texts(eng, "escaped texts", &ts);
}

fn c25(eng: &mut Engine, deep: bool) {
    let d = |q, t| if deep { t } else { q };
    // Texts that are no grammars.
    let ops = ["a", "\"s\"", "(", ")", "&", "-", "~", "|", "*", "{2}"];
    tokens(eng, "operators", &ops, d(5, 6), "r = ", "", " ");
    let ops = ["a", "(", ")", "!", "^", "|", "?", "+", "::", "[0..]", ","];
    tokens(eng, "operators", &ops, d(5, 6), "/*é*/ r=", "", "\n");
    tokens(eng, "operators", &ops, d(5, 6), "// é\nr=", "", "\n");
    let ops = ["a", "~", "^", "|", "-", "*", "="];
    tokens(eng, "operators", &ops, d(6, 7), "r = a ", " b", " ");
    let top = ["a", "=", "_", "(", ")", "{", "}", "~", ",", "use ", "::", "as", "///d\n", "//!d\n", "pest", "in \"f\""];
    tokens(eng, "rules", &top, d(4, 5), "", "", " ");
    tokens(eng, "rules", &top, d(4, 5), "a = b ", "= c", "");
    let com = ["/*", "*/", "//", "\n", "\r\n", "é", "*", " "];
    tokens(eng, "comments", &com, d(5, 6), "r = a", " x y", "");
    let a = ["a", "\\", "\"", "'", "n", "x", "u", "{", "}", "é", "\n"];
    tokens(eng, "string bodies", &a, d(4, 5), "r = \"", "\"", "");
    tokens(eng, "insensitive bodies", &a, d(4, 5), "r = i\"", "\"", "");
    tokens(eng, "range bodies", &a, d(4, 5), "r = '", "'..'z'", "");
    tokens(eng, "range bodies", &a, d(4, 5), "r = 'a'..'", "'", "");
    let a = ["#", "\"", "a", "\\", "\n", "日", "r", "'"];
    tokens(eng, "raw bodies", &a, d(5, 6), "r = r", "", "");
    let nums = ["", "0", "1", "2", "10", "01", "-1", "+1", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999999999999999", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809"];
    let mut ts = vec![];
    for a in nums {
        for b in nums {
            for (o, c) in [("{", "}"), ("[", "]"), ("{ ", "\n}"), ("[ ", " ]"), ("~{", "}"), ("{/*é*/", "//\n}")] {
                for dots in ["..", " .. ", "/*é*/..\n", "", ".", "-", ","] {
                    ts.push(format!("r = \"é\" - a{o}{a}{dots}{b}{c}*"));
                }
            }
        }
    }
    texts(eng, "bounds and slices", &ts);
    // Texts that read well, but mean nothing.
    let sick = [
        r#""\u{d800}""#, r#""a\"\xff\u{110000}b é""#, r#"i"\x80""#, r#"i"é\u{dfff}""#, r"'\xAB'..'z'", r"'é' .. '\u{ffffff}'", r"'\''..'\x80'", r"'\u{d800}' /*é*/..'\x80'",
        "a{0}", "a{ 0 }", "a{..0}", "a{2..1}", "a{ 3 .. 2 }", "a~{ /*é*/ 3//\n..\n2 /*x*/ }", "a{18446744073709551616}", "a{1..99999999999999999999}", "a{99999999999999999999..1}",
        "a[9223372036854775808..]", "a[..-9223372036854775809]", "a[ 1 .. +99999999999999999999 ]",
    ];
    // Like them, but right.
    let sane = [r#""\u{d7ff}""#, r#"i"\x7f""#, r"'\x7f'..'\u{10ffff}'", "a{0..1}", "a{1..}", "a[-9223372036854775808..1]"];
    let hosts: Vec<fn(&str) -> String> = vec![
        |x| x.into(),
        |x| format!("({x})"),
        |x| format!("( /*é*/\n{x} )"),
        |x| format!("{x} - b"),
        |x| format!("b ~ ({x})"),
        |x| format!("\"é\" ^ {x} | c"),
        |x| format!("b | ({x})"),
        |x| format!("| b | c - {x} | d"),
        |x| format!("b ~| ({x})"),
        |x| format!("&({x})"),
        |x| format!("! & ( {x})"),
        |x| format!("({x})?"),
        |x| format!("({x})~*"),
        |x| format!("({x})+ - b"),
        |x| format!("({x}){{2..3}}"),
        |x| format!("a - ({x})"),
        |x| format!("f({x})"),
        |x| format!("f(b, {x})"),
        |x| format!("m::f(é_ , {x}, c,)").replace("é_", "\"é\""),
        |x| format!("f(g(b){{2}}, (h({x}))) - b"),
        |x| format!("pest::stack::push({x})"),
    ];
    let tops: Vec<fn(&str) -> String> = vec![
        |x| format!("r = {x}"),
        |x| format!("r = {{ {x} }}"),
        |x| format!("r = _ {x}"),
        |x| format!("r = _{{{x}}} s = b"),
        |x| format!("//! é\n/// é\nr(x, y) = {x}\n/// d\ns = \"é\""),
        |x| format!("b = \"é\\u{{e000}}\"\r\n\r\n\tr = {x}\r\n"),
        |x| format!("use pest::stack\nuse pest::unicode as u\n~ = {x}\nb = \"\""),
        |x| format!("b = 'a'..'é' use pest::ascii /* é */ ^ = {x} // é"),
    ];
    let dims = [tops.len(), hosts.len(), hosts.len(), sick.len()];
    let total: usize = dims.iter().product();
    let make = |i: usize| {
        let x = sick[i % dims[3]];
        let i = i / dims[3];
        let mut y = hosts[i % dims[2]](x);
        if y.starts_with('|') {
            y = format!("({y})");
        }
        tops[i / dims[2] / dims[1]](&hosts[i / dims[2] % dims[1]](&y))
    };
    // The model has to see the fault.
    let bad = |t: &String, n: usize| match read(t) {
        Ans::Bad(f) if f.len() >= n => (),
        x => panic!("the model reads {t:?} as {x:?}"),
    };
    let parts = each(total, 64, |i| format!("text {:?}", make(i)), |i, p| {
        let t = make(i);
        bad(&t, 1);
        check(p, &t, || format!("text {t:?}"));
    });
    eng.add(format!("one construct at fault: {dims:?} (rules, hosts, hosts, faults)"), parts);
    // Right ones before and behind; two that are at fault.
    let all: Vec<&str> = sick.iter().chain(&sane).copied().collect();
    let outer: Vec<fn(&str, &str) -> String> = vec![
        |x, y| format!("r = {x} - {y}"),
        |x, y| format!("r = {x} | {y}"),
        |x, y| format!("r = b ~ {x} ~ c ^ ({y} | d)"),
        |x, y| format!("r = {{ f({x}, {y}) }}"),
        |x, y| format!("r = f({x})\n\ns = ({y})*"),
        |x, y| format!("r = f({x}) | g(h({y}) - \"é\")"),
        |x, y| format!("r = ({x} | b)~{{2}} - !{y}"),
        |x, y| format!("r = {y} use pest s(x) = _{{ x - {x} }} t = b"),
        |x, y| format!("r = {x} ="),
        |x, y| format!("r = {x} = {y} -"),
        |x, y| format!("r = ({x} | {y}"),
    ];
    let dims = [outer.len(), if deep { hosts.len() } else { 1 }, all.len(), all.len()];
    let total: usize = dims.iter().product();
    let make = |i: usize| {
        let (y, i) = (all[i % dims[3]], i / dims[3]);
        let (x, i) = (all[i % dims[2]], i / dims[2]);
        outer[i / dims[1]](&hosts[i % dims[1]](x), y)
    };
    let parts = each(total, 64, |i| format!("text {:?}", make(i)), |i, p| {
        let t = make(i);
        check(p, &t, || format!("text {t:?}"));
    });
    eng.add(format!("two constructs, both perhaps at fault: {dims:?}"), parts);
    // Imports.
    let mut ts = vec![];
    for path in ["pest()", "pest::stack[1..2]", "m :: n ( )", "m(a)", "m [ .. ] ", "pest(\"\\xff\")", "m[..99999999999999999999]", "m(a{0}, b)", "pest"] {
        for file in ["", " in \"f\"", " in \"\\u{d800}\"", "\nin /*é*/ \"é\\x80\"\n"] {
            for alias in ["", " as x", "\tas\ny "] {
                for (a, b) in [("", "\nr = b"), ("/*é*/ ", " r = \"\\xff\""), ("use pest\n", "\nr = b"), ("r = b\n", ""), ("r = \"é\"\n// é\n", " s = c"), ("//! é\n", "r = b =")] {
                    ts.push(format!("{a}use {path}{file}{alias}{b}"));
                }
            }
        }
    }
    texts(eng, "imports at fault", &ts);
}

fn main() {
    let (prop, deep, out) = args();
    PLACES.set(prop == "C25").unwrap();
    let mut eng = Engine { name: "textmc".into(), ..Engine::default() };
    match prop.as_str() {
        "C11" => c11(&mut eng, deep),
        "C12" => c12(&mut eng, deep),
        "C25" => c25(&mut eng, deep),
        _ => panic!("no such property here"),
    }
    eng.finish(&out)
}
