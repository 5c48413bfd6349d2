//! Model checking of the generator: which grammars it accepts (C13), how files are put together
//! (C16), and that it always gives the same program (C21), what becomes of documentation (C23),
//! and where errors in files point (C25).
mod docs;
mod files;
mod model;
mod places;
mod sources;
use model::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use vref::evid::{args, Engine, Part};
use vref::par::{each, last_panic};

/// A directory for this run only.
pub fn scratch() -> PathBuf {
    let d = std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into());
    PathBuf::from(d).join(format!("genmc-{}", std::process::id()))
}
thread_local! {
    /// What the files of this worker hold.
    static HELD: RefCell<Vec<(String, String)>> = const { RefCell::new(vec![]) };
    pub static DIR: PathBuf = {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = scratch().join(format!("w{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        d
    };
}
pub fn put(name: &str, text: &str) -> PathBuf {
    let path = DIR.with(|d| d.join(name));
    HELD.with(|h| {
        let mut h = h.borrow_mut();
        if let Some(x) = h.iter_mut().find(|x| x.0 == name) {
            if x.1 == text {
                return;
            }
            x.1 = text.into();
        } else {
            h.push((name.into(), text.into()));
        }
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p).unwrap();
        }
        std::fs::write(&path, text).unwrap();
    });
    path
}

/// Runs the generator. Rejection by panic or `compile_error!` alike.
pub fn generate(attr: &str) -> Result<String, String> {
    let src = format!("{attr}\nstruct P;");
    let r = catch_unwind(AssertUnwindSafe(|| {
        let ts: proc_macro2::TokenStream = src.parse().unwrap();
        pest3_generator::typed::derive_typed_parser(ts, false, true).to_string()
    }));
    match r {
        Ok(s) if s.contains("compile_error !") => Err(s),
        Ok(s) => Ok(s),
        Err(_) => Err(last_panic()),
    }
}
fn attr(g: &G) -> String {
    if g.files.len() == 1 {
        return format!("#[grammar_inline = {:?}]", file_text(&g.files[0].1));
    }
    let mut root = String::new();
    for (n, f) in g.files.iter().rev() {
        root = put(&format!("{n}.pest"), &file_text(f)).to_string_lossy().into_owned();
    }
    format!("#[grammar = {root:?}]")
}
fn show(g: &G) -> String {
    g.files
        .iter()
        .map(|(n, f)| {
            let t = file_text(f).trim_end().replace('\n', "; ");
            if g.files.len() == 1 { t } else { format!("{n}: {t}") }
        })
        .collect::<Vec<_>>()
        .join(" // ")
}
pub fn rank_text(t: &str) -> u64 {
    t.len() as u64
}
/// Simpler grammars first.
fn rank(g: &G) -> u64 {
    g.files.iter().map(|f| file_text(&f.1).len() as u64).sum()
}

fn accept(g: &G, trivia: bool, p: &mut Part) {
    let (v, steps) = legal(g);
    let real = generate(&attr(g));
    p.states += 1;
    p.transitions += steps + 1;
    p.evaluations += 1;
    p.traces += 1;
    match (&v, &real) {
        (Verdict::Good, Ok(s)) => {
            p.outcome("well formed, accepted");
            // Where nothing but trivia differs, the derived families tell.
            if !trivia && syn::parse_str::<syn::File>(s).is_err() {
                p.viol(rank(g), || format!("not a Rust program: {}", show(g)), || s.clone());
            }
        }
        (Verdict::Bad(b), Err(_)) => {
            p.nontrivial += 1;
            p.outcome("ill formed, rejected");
            p.sample(6, || format!("{} [{b}]", show(g)));
        }
        (Verdict::Open(o), _) => {
            p.skipped += 1;
            p.outcome(&format!("open: {o}"));
        }
        (Verdict::Good, Err(e)) => {
            p.outcome("well formed, rejected");
            p.viol(rank(g), || format!("well formed, rejected: {}", show(g)), || e.clone());
        }
        (Verdict::Bad(b), Ok(_)) => {
            p.outcome("ill formed, accepted");
            p.viol(rank(g), || format!("ill formed, accepted: {}", show(g)), || b.clone());
        }
    }
}

/// Every time the same program.
fn same(g: &G, p: &mut Part) {
    let a = attr(g);
    let first = generate(&a);
    p.states += 1;
    p.evaluations += 1;
    for _ in 0..3 {
        p.traces += 1;
        p.transitions += 1;
        let next = generate(&a);
        let eq = match (&first, &next) {
            (Ok(x), Ok(y)) => x == y,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !eq {
            p.viol(rank(g), || format!("two programs for {}", show(g)), || format!("{first:?}\n{next:?}"));
        }
    }
    match first {
        Ok(_) => {
            p.nontrivial += 1;
            p.outcome("accepted each time")
        }
        Err(_) => p.outcome("rejected each time"),
    }
}

pub type Space2 = Box<dyn Fn(&[usize], &mut Part) + Sync>;
type Space = (String, usize, Box<dyn Fn(usize) -> Option<G> + Sync + Send>);

/// Definitions that may or may not be there.
fn defs() -> Vec<It> {
    vec![
        It::F("m", "m", 1),
        It::B("pest::ascii_digit", "d"),
        It::B("pest::stack", "st"),
        It::R(r("a", lit())),
        It::R(rg("g", &["x"], seq(p("x"), '-', lit()))),
        It::R(rg("g2", &["x", "y"], cho(p("x"), p("y")))),
        It::R(rs("s", lit())),
        It::R(rm("h", &["x"], seq(p("x"), '-', p("x")))),
        It::R(r("~", X::Lit("\" \""))),
        It::R(r("^", X::Lit("\"_\""))),
    ]
}
fn imported() -> Vec<(&'static str, Vec<It>)> {
    vec![
        (
            "m",
            vec![
                It::F("n", "n", 2),
                It::B("pest::any", "d"),
                It::R(r("a", lit())),
                It::R(rg("g", &["x"], seq(p("x"), '-', p("a")))),
                It::R(rm("h", &["x"], cho(p("x"), p("n::a")))),
            ],
        ),
        ("n", vec![It::R(r("a", lit())), It::R(rs("s", lit()))]),
    ]
}
const PATHS: &[&str] = &[
    "a", "g", "g2", "s", "h", "x", "m", "m::a", "m::g", "m::h", "m::s", "m::n", "m::n::a", "m::n::s", "m::d", "m::x", "n::a", "d", "st", "st::push",
    "st::peek", "st::any", "any", "pest::any", "pest::stack::peek", "pest::stack::push", "pest::stack", "pest::peek", "pest::unicode",
    "pest::unicode::alphabetic", "pest::unicode::any", "pest::unicode::ALPHABETIC", "nope", "a::a", "x::a", "pest::pest::any", "pest::a", "g::x",
];
fn argss() -> Vec<A> {
    vec![
        A::No,
        A::Call(vec![]),
        A::Call(vec![lit()]),
        A::Call(vec![lit(), p("a")]),
        A::Call(vec![p("nope")]),
        A::Call(vec![seq(p("a"), '~', lit())]),
        A::Call(vec![call("g", vec![p("a")])]),
        A::Call(vec![call("h", vec![p("x")])]),
        A::Slice("0..1"),
        A::Slice(".."),
        A::Slice("-1.."),
    ]
}
fn contexts() -> Vec<fn(X) -> X> {
    vec![
        |x| x,
        |x| seq(x, '-', lit()),
        |x| seq(lit(), '~', x),
        |x| cho(lit(), pre('!', x)),
        |x| post(x, '^', "*"),
        |x| post(seq(lit(), '-', x), '~', "{2}"),
        |x| call("pest::stack::push", vec![x]),
        |x| call("g", vec![x]),
        |x| call("h", vec![x]),
        |x| call("m::g", vec![x]),
        |x| call("m::h", vec![x]),
        |x| call("g2", vec![lit(), x]),
    ]
}
fn hosts() -> Vec<fn(X) -> Vec<R>> {
    vec![
        |x| vec![r("r", x)],
        |x| vec![rg("r", &["x"], x)],
        |x| vec![rs("r", x)],
        |x| vec![rm("r", &["x"], x), r("r2", call("r", vec![lit()]))],
    ]
}
/// `pick` of the definitions, with the host before or after them.
fn with(mask: usize, host: Vec<R>, first: bool) -> G {
    let mut f: Vec<It> = vec![];
    let ds: Vec<It> = defs().into_iter().enumerate().filter(|d| mask >> d.0 & 1 == 1).map(|d| d.1).collect();
    let host = host.into_iter().map(It::R);
    let (u, d): (Vec<It>, Vec<It>) = ds.into_iter().partition(|i| !matches!(i, It::R(_)));
    if first {
        // Imports may follow rules.
        f.extend(host);
        f.extend(u);
        f.extend(d);
    } else {
        f.extend(u);
        f.extend(d);
        f.extend(host);
    }
    let mut files = vec![("root", f)];
    if mask & 1 == 1 {
        files.extend(imported());
    }
    G { files }
}
fn references(deep: bool) -> Space {
    let (a, c, h) = (argss(), contexts(), hosts());
    let n = defs().len();
    let masks: Vec<usize> = if deep {
        (0..1 << n).collect()
    } else {
        let full = (1 << n) - 1;
        std::iter::once(full).chain((0..n).map(|i| full & !(1 << i))).chain([0]).collect()
    };
    let dims = [PATHS.len(), a.len(), c.len(), h.len(), masks.len()];
    let total: usize = dims.iter().product();
    (
        format!("references: {} paths x {} arguments x {} contexts x {} hosts x {} sets of definitions", dims[0], dims[1], dims[2], dims[3], dims[4]),
        total,
        Box::new(move |mut i| {
            let mut d = [0; 5];
            for k in 0..5 {
                d[k] = i % dims[k];
                i /= dims[k];
            }
            let x = c[d[2]](X::Path(PATHS[d[0]], a[d[1]].clone()));
            Some(with(masks[d[4]], h[d[3]](x), (d[0] + d[1] + d[2]) % 2 == 0))
        }),
    )
}
/// Every list of definitions of few names.
fn doubles(deep: bool) -> Space {
    let items: Vec<It> = vec![
        It::R(r("a", lit())),
        It::R(rs("a", lit())),
        It::R(rg("a", &["x"], p("x"))),
        It::R(rm("a", &["x"], p("x"))),
        It::R(r("b", lit())),
        It::R(rg("b", &["a"], seq(p("a"), '-', p("a")))),
        It::R(r("~", lit())),
        It::R(r("^", lit())),
        It::B("pest::any", "a"),
        It::B("pest::stack", "b"),
        It::F("n", "a", 1),
        It::F("n", "n", 1),
    ];
    let len = if deep { 5 } else { 4 };
    let k = items.len();
    let total = (1..=len as u32).map(|l| k.pow(l)).sum();
    (
        format!("definitions: every list of at most {len} out of {k}"),
        total,
        Box::new(move |mut i| {
            let mut l = 1u32;
            while i >= k.pow(l) {
                i -= k.pow(l);
                l += 1;
            }
            let mut f = vec![];
            for _ in 0..l {
                f.push(items[i % k].clone());
                i /= k;
            }
            if !f.iter().any(|i| matches!(i, It::R(_))) {
                return None;
            }
            let mut files = vec![("root", f.clone())];
            if f.iter().any(|i| matches!(i, It::F(..))) {
                files.push(("n", vec![It::R(r("a", lit())), It::R(rg("g", &["a"], p("a")))]));
            }
            Some(G { files })
        }),
    )
}
/// Where trivia is used, and where it is defined.
fn trivia(deep: bool) -> Space {
    let mut level: Vec<Vec<X>> = vec![vec![], vec![lit(), p("a")]];
    let max = if deep { 4 } else { 3 };
    for n in 2..=max {
        let mut v = vec![];
        for e in level[n - 1].clone() {
            for t in ['-', '~', '^'] {
                let ops: &[&str] = if deep || n == 2 { &["*", "+", "?", "{2}", "{1..}", "{..2}", "{1..2}"] } else { &["*", "{1..2}"] };
                for o in ops {
                    v.push(post(e.clone(), t, o));
                }
            }
            v.push(pre('!', e.clone()));
            v.push(call("g", vec![e.clone()]));
            v.push(call("h", vec![e.clone()]));
            v.push(call("drop1", vec![e.clone()]));
            v.push(call("pest::stack::push", vec![e.clone()]));
        }
        for i in 1..n - 1 {
            for x in level[i].clone() {
                for y in level[n - 1 - i].clone() {
                    for t in ['-', '~', '^'] {
                        v.push(seq(x.clone(), t, y.clone()));
                    }
                    v.push(cho(x.clone(), y));
                }
            }
        }
        level.push(v);
    }
    let exprs: Vec<X> = level.into_iter().flatten().collect();
    let n = exprs.len();
    // Root and imported module each define any of the two; the expression stands in one of them.
    let hosts = 7;
    (
        format!("trivia: {n} expressions x {hosts} places x 16 sets of definitions"),
        n * hosts * 16,
        Box::new(move |mut i| {
            let d = i % 16;
            i /= 16;
            let h = i % hosts;
            let x = exprs[i / hosts].clone();
            let mut f: [Vec<It>; 2] = [vec![It::F("m", "m", 1)], vec![]];
            for k in 0..2 {
                f[k].push(It::R(r("a", lit())));
                f[k].push(It::R(rg("g", &["x"], p("x"))));
                f[k].push(It::R(rm("h", &["x"], seq(p("x"), '-', p("x")))));
                f[k].push(It::R(rm("drop1", &["x"], lit())));
                if d >> (2 * k) & 1 == 1 {
                    f[k].push(It::R(r("~", lit())));
                }
                if d >> (2 * k) & 2 == 2 {
                    f[k].push(It::R(rs("^", lit())));
                }
            }
            let k = (h >= 4) as usize;
            match h {
                0 | 4 => f[k].push(It::R(r("r", x))),
                1 | 5 => f[k].push(It::R(rs("r", x))),
                2 | 6 => f[k].push(It::R(rg("r", &["y"], seq(p("y"), '-', x)))),
                _ => {
                    f[k].push(It::R(rm("r", &["y"], seq(p("y"), '-', x))));
                    f[k].push(It::R(r("r2", call("r", vec![lit()]))));
                }
            }
            let [a, b] = f;
            Some(G { files: vec![("root", a), ("m", b)] })
        }),
    )
}
/// Silent rules that call each other.
fn cycles(deep: bool) -> Space {
    let bodies = |me: usize| -> Vec<X> {
        let mut v = vec![p("x"), lit(), p("a"), call("g", vec![p("x")])];
        for t in ["h1", "h2", "h3"] {
            v.push(call(t, vec![p("x")]));
            v.push(call("g", vec![call(t, vec![lit()])]));
            v.push(call(t, vec![call("h1", vec![p("x")])]));
            if me == 1 || deep {
                v.push(seq(p("x"), '-', call(t, vec![p("a")])));
                v.push(post(call(t, vec![p("x")]), '-', "*"));
            }
        }
        v
    };
    let b: Vec<Vec<X>> = (1..=3).map(bodies).collect();
    let tops = vec![p("a"), call("h1", vec![p("a")]), call("h2", vec![call("h1", vec![p("r")])]), call("g", vec![call("h3", vec![lit()])])];
    let dims = [b[0].len(), b[1].len(), b[2].len(), tops.len()];
    (
        format!("silent rules that call each other: {dims:?}"),
        dims.iter().product(),
        Box::new(move |mut i| {
            let mut d = [0; 4];
            for k in 0..4 {
                d[k] = i % dims[k];
                i /= dims[k];
            }
            Some(G {
                files: vec![(
                    "root",
                    vec![
                        It::R(r("a", lit())),
                        It::R(rm("h1", &["x"], b[0][d[0]].clone())),
                        It::R(rg("g", &["x"], seq(p("x"), '-', lit()))),
                        It::R(r("r", tops[d[3]].clone())),
                        It::R(rm("h2", &["x"], b[1][d[1]].clone())),
                        It::R(rm("h3", &["x"], b[2][d[2]].clone())),
                    ],
                )],
            })
        }),
    )
}
/// Parameters and rules of the same names.
fn shadows(_deep: bool) -> Space {
    let names = ["a", "b", "g", "h"];
    let mut exprs: Vec<X> = names.iter().map(|n| p(n)).collect();
    for n in names {
        for a in names {
            exprs.push(call(n, vec![p(a)]));
        }
        exprs.push(call(n, vec![call("g", vec![p(n)])]));
        exprs.push(call("h", vec![call(n, vec![lit()])]));
    }
    let n = exprs.len();
    let dims = [n, names.len(), 3, n];
    (
        format!("parameters named like rules: {dims:?}"),
        dims.iter().product(),
        Box::new(move |mut i| {
            let mut d = [0; 4];
            for k in 0..4 {
                d[k] = i % dims[k];
                i /= dims[k];
            }
            let q = names[d[1]];
            let body = exprs[d[0]].clone();
            let caller = exprs[d[3]].clone();
            let host = match d[2] {
                0 => rg("r", &[q], body),
                1 => rm("r", &[q], body),
                _ => rg("r", &["y"], body),
            };
            Some(G {
                files: vec![(
                    "root",
                    vec![
                        It::R(r("a", lit())),
                        It::R(rs("b", lit())),
                        It::R(host),
                        It::R(rg("g", &["b"], seq(p("b"), '-', lit()))),
                        It::R(rm("h", &["a"], cho(p("a"), lit()))),
                        It::R(r("top", call("r", vec![caller]))),
                    ],
                )],
            })
        }),
    )
}

fn spaces(deep: bool) -> Vec<Space> {
    vec![references(deep), doubles(deep), trivia(deep), cycles(deep), shadows(deep)]
}

fn main() {
    let (prop, deep, out) = args();
    let mut e = Engine { name: "genmc".into(), ..Engine::default() };
    std::fs::create_dir_all(scratch()).unwrap();
    std::env::set_var("CARGO_MANIFEST_DIR", scratch());
    match prop.as_str() {
        "C13" | "C21" => {
            let all = if prop == "C13" || deep { spaces(deep) } else { vec![references(false), doubles(false), cycles(false)] };
            for (k, (name, n, get)) in all.into_iter().enumerate() {
                let full = n / 12;
                let n = if prop == "C21" && !deep && k == 0 { full } else { n };
                let step = |g: &G, p: &mut Part| if prop == "C13" { accept(g, k == 2, p) } else { same(g, p) };
                let say = |i: usize| get(i).map_or(String::new(), |g| show(&g));
                let parts = each(n, 16, say, |i, p| {
                    if let Some(g) = get(i) {
                        step(&g, p)
                    }
                });
                e.add(name, parts);
            }
            if prop == "C21" {
                sources::again(deep, &mut e);
            }
        }
        "C16" => {
            sources::run(deep, &mut e);
            files::run(deep, &mut e)
        }
        "C25" => places::run(deep, &mut e),
        "C23" => docs::all(true, &mut e),
        p => panic!("property {p}"),
    }
    std::fs::remove_dir_all(scratch()).unwrap();
    e.finish(&out)
}
/// The file of this worker is gone.
pub fn forget(name: &str) {
    HELD.with(|h| h.borrow_mut().retain(|x| x.0 != name));
}
