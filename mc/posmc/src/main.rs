//! Positions, spans and source snippets: every text over a small alphabet, every offset.
use pest3_core::formatter::FormatOption;
use pest3_core::span::merge_spans;
use pest3_core::{Position, Span};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
use vref::evid::*;
use vref::interp::{line_col, line_of};
use vref::par::*;

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn bounds(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    v.push(s.len());
    v
}

/// C09: offsets to positions, line, column, line text, spans between positions.
fn positions(p: &mut Part, s: &str) {
    let bs = bounds(s);
    let rank = s.len() as u64;
    let tail = s.len() + 3;
    for o in (0..=tail).chain([usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1]) {
        p.states += 1;
        p.transitions += 1;
        let key = || format!("text {s:?} offset {o}");
        let pos = Position::new(s, o);
        p.traces += 1;
        if pos.is_some() != bs.contains(&o) {
            p.viol(rank, key, || format!("Position::new is {pos:?}, boundaries are {bs:?}"));
            continue;
        }
        let Some(pos) = pos else {
            p.outcome("refused");
            continue;
        };
        p.outcome("created");
        p.nontrivial += 1;
        let want = (o, line_col(s, o), line_of(s, o));
        let got = (pos.pos(), pos.line_col(), pos.line_of());
        p.transitions += 3;
        if want != got {
            p.viol(rank, key, || format!("offset, (line, column), line: reference {want:?}, real {got:?}"));
        }
        // The same place for who uses pest 2.
        if Some(pest2::Position::from(pos)) != pest2::Position::new(s, o) {
            p.viol(rank, key, || format!("as a position of pest 2: {:?}", pest2::Position::from(pos)));
        }
        if o == 0 && Position::from_start(s) != pos {
            p.viol(rank, key, || "from_start is another position".into());
        }
        for o2 in &bs {
            if *o2 >= o {
                p.transitions += 1;
                let sp = pos.span(&Position::new(s, *o2).unwrap());
                if (sp.start(), sp.end(), sp.as_str()) != (o, *o2, &s[o..*o2]) {
                    p.viol(rank, key, || format!("span to {o2} is {sp:?}"));
                }
            }
        }
    }
    p.sample(3, || format!("text {s:?}: boundaries {bs:?}"));
}

/// The lines of the text that [a, b) touches; for an empty span the line its offset stands on.
fn lines(s: &str, a: usize, b: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut at = 0;
    for l in s.split_inclusive('\n') {
        let e = at + l.len();
        let hit = if a == b { at <= a && a < e } else { at < b && a < e };
        if hit {
            v.push((at, e));
        }
        at = e;
    }
    v
}

/// C22.
fn spans(p: &mut Part, s: &str) {
    let bs = bounds(s);
    let n = s.len();
    let rank = n as u64;
    for a in 0..=n + 1 {
        for b in 0..=n + 1 {
            p.states += 1;
            p.transitions += 1;
            p.traces += 1;
            let key = || format!("text {s:?} span {a}..{b}");
            let sp = Span::new(s, a, b);
            let ok = a <= b && bs.contains(&a) && bs.contains(&b);
            if sp.is_some() != ok {
                p.viol(rank, key, || format!("Span::new is {sp:?}"));
                continue;
            }
            let Some(sp) = sp else {
                p.outcome("refused");
                continue;
            };
            p.outcome("created");
            p.nontrivial += 1;
            let (pa, pb) = (Position::new(s, a).unwrap(), Position::new(s, b).unwrap());
            if (sp.start(), sp.end(), sp.as_str(), sp.get_input()) != (a, b, &s[a..b], s)
                || sp.get_input().as_ptr() != s.as_ptr()
                || sp.start_pos() != pa
                || sp.end_pos() != pb
                || sp.split() != (pa, pb)
            {
                p.viol(rank, key, || format!("parts are wrong: {sp:?}"));
            }
            // Lines.
            let want = lines(s, a, b);
            let got: Vec<(usize, usize)> = sp.lines_span().take(64).map(|l| (l.start(), l.end())).collect();
            let txt: Vec<&str> = sp.lines().take(64).collect();
            p.transitions += 2;
            if want != got {
                p.viol(rank, key, || format!("lines_span: reference {want:?}, real {got:?}"));
            }
            let wt: Vec<&str> = want.iter().map(|(a, b)| &s[*a..*b]).collect();
            if wt != txt {
                p.viol(rank, key, || format!("lines: reference {wt:?}, real {txt:?}"));
            }
            // Sub-spans, relative to the span, bounded by it.
            let m = b - a;
            let sub = |x: usize, y: usize| {
                if x <= y && y <= m && bs.contains(&(a + x)) && bs.contains(&(a + y)) {
                    Some((a + x, a + y))
                } else {
                    None
                }
            };
            let se = |s: Option<Span<'_>>| s.map(|s| (s.start(), s.end()));
            for x in (0..=m + 1).chain([usize::MAX - 1, usize::MAX]) {
                let inc = |x: usize| x.saturating_add(1);
                let one = [
                    (se(sp.get(x..)), sub(x, m), "x.."),
                    (se(sp.get(..x)), sub(0, x), "..x"),
                    (se(sp.get(..=x)), sub(0, inc(x)), "..=x"),
                    (se(sp.get((std::ops::Bound::Excluded(x), std::ops::Bound::Unbounded))), sub(inc(x), m), "(x, )"),
                ];
                for (got, want, what) in one {
                    p.transitions += 1;
                    if got != want {
                        p.viol(rank, key, || format!("get({what}) with x = {x}: reference {want:?}, real {got:?}"));
                    }
                }
                for y in (0..=m + 1).chain([usize::MAX - 1, usize::MAX]) {
                    p.transitions += 2;
                    let (g1, w1) = (se(sp.get(x..y)), sub(x, y));
                    let (g2, w2) = (se(sp.get(x..=y)), sub(x, inc(y)));
                    if (g1, g2) != (w1, w2) {
                        p.viol(rank, key, || format!("get({x}..{y}) and get({x}..={y}): reference {w1:?} {w2:?}, real {g1:?} {g2:?}"));
                    }
                }
            }
            if se(sp.get(..)) != Some((a, b)) {
                p.viol(rank, key, || "get(..) is not the span".into());
            }
            // Against every other span and position.
            for c in &bs {
                for d in &bs {
                    let Some(o) = Span::new(s, *c, *d) else { continue };
                    p.transitions += 1;
                    let want = if *c <= b && a <= *d { Some((a.min(*c), b.max(*d))) } else { None };
                    let got = se(merge_spans(&sp, &o));
                    if want != got {
                        p.viol(rank, key, || format!("merged with {c}..{d}: reference {want:?}, real {got:?}"));
                    }
                    let same = (a, b) == (*c, *d);
                    if (sp == o) != same || (same && hash(&sp) != hash(&o)) {
                        p.viol(rank, key, || format!("equality or hash wrong against {c}..{d}"));
                    }
                }
                if *c != a || a == b {
                    let o = Position::new(s, *c).unwrap();
                    let same = *c == a;
                    if (pa == o) != same || (same && hash(&pa) != hash(&o)) || pa.cmp(&o) != a.cmp(c) || pa.partial_cmp(&o) != Some(a.cmp(c)) {
                        p.viol(rank, key, || format!("position {a} against {c}: equality, hash or order wrong"));
                    }
                }
            }
        }
    }
    p.sample(3, || format!("all spans of {s:?}"));
}

/// Display width of the characters used here. Characters of ambiguous width may be counted as one
/// column or as two, but everywhere alike.
fn width(s: &str, wide: bool) -> usize {
    s.chars()
        .map(|c| match c {
            '\u{301}' => 0,
            '中' | '😀' | 'あ' => 2,
            '\u{b7}' | '±' => 1 + wide as usize,
            _ => 1,
        })
        .sum()
}
/// The first snippets that show that ambiguous characters are counted as one column, and as two.
static NARROW: Mutex<Option<(u64, String)>> = Mutex::new(None);
static WIDE: Mutex<Option<(u64, String)>> = Mutex::new(None);
fn first(m: &Mutex<Option<(u64, String)>>, rank: u64, key: String) {
    let mut m = m.lock().unwrap();
    let new = (rank, key);
    if m.as_ref().map_or(true, |o| new < *o) {
        *m = Some(new);
    }
}
fn vis(s: &str) -> String {
    s.chars()
        .map(|c| match c as u32 {
            n @ 0..=0x1f => char::from_u32(0x2400 + n).unwrap(),
            0x7f => '\u{2421}',
            _ => c,
        })
        .collect()
}

struct Marks {
    s: (&'static str, &'static str),
    m: (&'static str, &'static str),
    n: (&'static str, &'static str),
}
const PLAIN: Marks = Marks { s: ("", ""), m: ("", ""), n: ("", "") };
const QUOTED: Marks = Marks { s: ("{", "}"), m: ("[", "]"), n: ("<", ">") };

/// The reference snippet of [a, b) or, without b, of the position a.
fn snippet(s: &str, a: usize, b: Option<usize>, k: &Marks, wide: bool) -> String {
    let width = |s: &str| width(s, wide);
    let q = |m: (&str, &str), t: &str| format!("{}{}{}", m.0, t, m.1);
    // A text that ends with a line feed (and an empty one) has a last line without characters.
    let mut ls: Vec<(usize, &str)> = vec![];
    let mut at = 0;
    for l in s.split_inclusive('\n') {
        ls.push((at, l));
        at += l.len();
    }
    if s.is_empty() || s.ends_with('\n') {
        ls.push((at, ""));
    }
    // The line a character offset stands on.
    let on = |o: usize| ls.iter().rposition(|l| l.0 <= o).unwrap();
    let first = on(a);
    let last = match b {
        // The last line holding a character of the span.
        Some(b) if b > a => on(b - 1),
        _ => first,
    };
    let w = (last + 1).to_string().len();
    let bar = q(k.n, "|");
    let gap = |rest: String| format!("{} {bar}{rest}\n", " ".repeat(w));
    let num = |i: usize, rest: String| format!("{} {bar} {rest}\n", q(k.n, &format!("{:>w$}", i + 1)));
    let (fs, fl) = ls[first];
    let pre = vis(&fl[..a - fs]);
    let mut o = String::new();
    match b {
        None => {
            o += &gap(String::new());
            o += &num(first, vis(fl));
            o += &gap(format!(" {}{}", " ".repeat(width(&pre)), q(k.m, "^")));
        }
        Some(b) if first == last => {
            let mid = vis(&fl[a - fs..b - fs]);
            o += &gap(String::new());
            o += &num(first, format!("{pre}{}{}", q(k.s, &mid), vis(&fl[b - fs..])));
            o += &gap(format!(" {}{}", " ".repeat(width(&pre)), q(k.m, &"^".repeat(width(&mid)))));
        }
        Some(b) => {
            o += &gap(format!(" {}{}", " ".repeat(width(&pre)), q(k.m, "v")));
            o += &num(first, format!("{pre}{}", q(k.s, &vis(&fl[a - fs..]))));
            let mids: Vec<usize> = (first + 1..last).collect();
            for (i, l) in mids.iter().enumerate() {
                if mids.len() <= 3 || i == 0 || i + 1 == mids.len() {
                    o += &num(*l, q(k.s, &vis(ls[*l].1)));
                } else if i == 1 {
                    o += &gap(" ...".into());
                }
            }
            let (es, el) = ls[last];
            let end = vis(&el[..b - es]);
            o += &num(last, format!("{}{}", q(k.s, &end), vis(&el[b - es..])));
            o += &gap(format!(" {}{}", " ".repeat(width(&end).saturating_sub(1)), q(k.m, "^")));
        }
    }
    o
}

fn real(s: &str, a: usize, b: Option<usize>, quoted: bool) -> String {
    let opt = || {
        FormatOption::new::<String>(
            |s: &str, f: &mut String| write!(f, "{{{s}}}"),
            |s: &str, f: &mut String| write!(f, "[{s}]"),
            |s: &str, f: &mut String| write!(f, "<{s}>"),
        )
    };
    let mut o = String::new();
    match (b, quoted) {
        (None, false) => o = Position::new(s, a).unwrap().to_string(),
        (Some(b), false) => o = Span::new(s, a, b).unwrap().to_string(),
        (None, true) => Position::new(s, a).unwrap().display(&mut o, opt()).unwrap(),
        (Some(b), true) => Span::new(s, a, b).unwrap().display(&mut o, opt()).unwrap(),
    }
    o
}

/// Takes everything but one piece.
struct Fussy {
    left: i64,
    out: String,
}
impl Write for Fussy {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.left -= 1;
        if self.left == -1 {
            return Err(std::fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

/// An output that refuses any one piece makes the display fail.
fn fussy(p: &mut Part, s: &str) {
    let bs = bounds(s);
    let pairs = bs.iter().flat_map(|a| bs.iter().filter(move |b| *b >= a).map(move |b| (*a, Some(*b))).chain([(*a, None)]));
    for (a, b) in pairs {
        let show = |f: &mut Fussy| {
            let opt = FormatOption::new::<Fussy>(
                |s: &str, f: &mut Fussy| f.write_str(s),
                |s: &str, f: &mut Fussy| f.write_str(s),
                |s: &str, f: &mut Fussy| f.write_str(s),
            );
            match b {
                None => Position::new(s, a).unwrap().display(f, opt),
                Some(b) => Span::new(s, a, b).unwrap().display(f, opt),
            }
        };
        let key = |k: i64| format!("text {s:?} from {a} to {b:?} with an output that fails at piece {k}");
        guard(p, s.len() as u64, || key(0), |p| {
            let mut all = Fussy { left: i64::MAX, out: String::new() };
            let ok = show(&mut all).is_ok();
            let n = i64::MAX - all.left;
            p.states += 1;
            p.nontrivial += 1;
            if !ok {
                p.viol(s.len() as u64, || key(-1), || "fails without reason".into());
            }
            for k in 0..n {
                let mut f = Fussy { left: k, out: String::new() };
                p.traces += 1;
                p.transitions += 1;
                p.outcome("output failed");
                if show(&mut f).is_ok() {
                    p.viol(s.len() as u64, || key(k), || format!("displays {:?}", f.out));
                }
            }
        });
    }
}

fn show(p: &mut Part, s: &str, a: usize, b: Option<usize>) {
    for quoted in [false, true] {
        p.states += 1;
        p.transitions += 2;
        p.traces += 1;
        let key = || format!("text {s:?} {} {a}{}", if b.is_some() { "span" } else { "position" }, b.map_or(String::new(), |b| format!("..{b}")));
        guard(p, s.len() as u64, key, |p| {
            let k = if quoted { &QUOTED } else { &PLAIN };
            let want = snippet(s, a, b, k, false);
            let got = real(s, a, b, quoted);
            p.outcome(match want.lines().count() {
                3 => "one line",
                4 => "two lines",
                5 => "three lines",
                6 => "four lines",
                _ => "five lines or an ellipsis",
            });
            p.nontrivial += 1;
            let other = snippet(s, a, b, k, true);
            if want != other && (got == want || got == other) {
                first(if got == want { &NARROW } else { &WIDE }, s.len() as u64, key());
            }
            if got != want && got != other {
                p.viol(s.len() as u64, key, || format!("reference\n{want}\nreal\n{got}"));
            }
            p.sample(2, || format!("{} => {want:?}", key()));
        });
    }
}

fn snippets(p: &mut Part, s: &str) {
    let bs = bounds(s);
    for a in &bs {
        show(p, s, *a, None);
        for b in &bs {
            if b >= a {
                show(p, s, *a, Some(*b));
            }
        }
    }
}

/// Texts of many lines, so that line numbers change their number of digits.
fn tall(n: usize, kind: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        s += match kind {
            0 => ["x", "yy", ""][i % 3],
            1 => ["中", "a\tb", "\u{301}c"][i % 3],
            _ => "",
        };
        s += if kind == 1 { "\r\n" } else { "\n" };
    }
    if kind == 0 {
        s += "end";
    }
    s
}

/// Texts of so many lines, and lines of so many characters.
fn talls(ns: &[usize]) -> Vec<String> {
    let long = |n: usize, k: usize| format!("{}\n{}", ["x", "é日", "😀\r"][k].repeat(n), ["", "end", "中"][k]);
    ns.iter().flat_map(|n| (0..3).flat_map(move |k| [tall(*n, k), long(*n, k)])).collect()
}

fn main() {
    let (prop, deep, out) = args();
    let mut eng = Engine { name: format!("posmc:{prop}"), spaces: vec![] };
    let d = |q: usize, t: usize| if deep { t } else { q };
    let over = |eng: &mut Engine, name: &str, alpha: &[char], n: usize, f: fn(&mut Part, &str)| {
        let ts = strings(alpha, n);
        let parts = each(ts.len(), 64, |i| format!("text {:?}", ts[i]), |i, p| f(p, &ts[i]));
        eng.add(format!("{name}: all texts of up to {n} of {alpha:?}"), parts);
    };
    match prop.as_str() {
        "C09" => {
            over(&mut eng, "positions", &['a', '\n', '\r', 'é', '日', '😀'], d(7, 9), positions);
            over(&mut eng, "positions", &['a', '\n'], d(14, 18), positions);
            over(&mut eng, "positions", &['\n', '\r', 'é'], d(9, 12), positions);
            let ts = talls(&[1, 2, 3, 9, 10, 11, 50, 100, 101, 300]);
            let parts = each(ts.len(), 1, |i| format!("text {:?}", ts[i]), |i, p| positions(p, &ts[i]));
            eng.add("positions in texts of up to 300 lines, and in long lines", parts);
        }
        "C22" => {
            over(&mut eng, "spans", &['a', '\n', 'é', '日'], d(7, 9), spans);
            over(&mut eng, "spans", &['a', '\n'], d(11, 15), spans);
            over(&mut eng, "spans", &['\r', '\n', '😀'], d(8, 10), spans);
            let ts = talls(&[1, 2, 3, 4, 8, 12]);
            let parts = each(ts.len(), 1, |i| format!("text {:?}", ts[i]), |i, p| spans(p, &ts[i]));
            eng.add("spans of texts of up to 12 lines, and of longer lines", parts);
        }
        "C10" => {
            over(&mut eng, "snippets", &['a', '\n'], d(10, 14), snippets);
            over(&mut eng, "snippets", &['a', '\n', '中', '\t', '\u{301}'], d(6, 7), snippets);
            over(&mut eng, "snippets", &['\n', '\r', '\0', '\x7f', '😀', ' '], d(5, 6), snippets);
            over(&mut eng, "snippets", &['a', '\n', '\u{b7}', '±', '中'], d(6, 7), snippets);
            over(&mut eng, "outputs that fail", &['a', '\n'], d(6, 8), fussy);
            let all: Vec<char> = (0u8..=0x7f).map(char::from).chain(['あ', '±']).collect();
            over(&mut eng, "every ASCII character", &all, 2, snippets);
            let ts: Vec<String> = (1..=d(13, 24)).chain([98, 99, 100, 101]).flat_map(|n| (0..3).map(move |k| tall(n, k))).collect();
            let parts = each(ts.len(), 1, |i| format!("text {:?}", ts[i]), |i, p| {
                let s = &ts[i];
                let bs = bounds(s);
                let big = bs.len() > 120;
                for (x, a) in bs.iter().enumerate() {
                    show(p, s, *a, None);
                    for (y, b) in bs.iter().enumerate().skip(x) {
                        // In the longest texts only spans near the end or short ones.
                        if !big || y - x < 14 || (x % 17 == 0 && y + 12 > bs.len()) {
                            show(p, s, *a, Some(*b));
                        }
                    }
                }
            });
            eng.add("snippets of texts of up to 101 lines", parts);
            let mut p = Part::default();
            if let (Some(n), Some(w)) = (&*NARROW.lock().unwrap(), &*WIDE.lock().unwrap()) {
                p.viol(n.0 + w.0, || "characters of ambiguous width".into(), || format!("one column for {}, two for {}", n.1, w.1));
            }
            p.traces = 1;
            p.outcome(if NARROW.lock().unwrap().is_some() { "one column" } else { "two columns" });
            eng.add("ambiguous width counted alike everywhere", vec![p]);
        }
        _ => panic!("no such property here"),
    }
    eng.finish(&out)
}
