//! Errors in grammars of several files: they name the file and the place (C25).
use crate::files::{file, spell, LAYOUTS};
use crate::{generate, put, DIR};
use pest2::error::{InputLocation, LineColLocation};
use pest3_meta::parser::parse;
use std::path::PathBuf;
use vref::evid::{Engine, Part};
use vref::par::each;

/// Who imports whom.
const NETS: &[[&[usize]; 4]] = &[
    [&[1], &[2], &[3], &[]],
    [&[1, 2, 3], &[], &[], &[]],
    [&[1, 2], &[3], &[3], &[]],
    [&[2, 1], &[3], &[1], &[]],
    [&[1, 3], &[2, 3], &[3], &[]],
];
/// What stands in front of the mistake, and behind it.
const AROUND: &[(&str, &str)] = &[
    ("", ""),
    ("", " t = \"é\"\n"),
    ("t = \"é\"\n", ""),
    ("// é\n\n/// é\nt(x) = _{ x - \"\\x7f\" }\r\n  ", "\nuse pest::unicode as u"),
    ("use pest::ascii\nt = 'a'..'é' /* é */ ", " // \n"),
];
/// A mistake, and the part of it that is at fault. `@` is the path of a file that is missing and
/// `#` that of the file itself.
const MISTAKES: &[(&str, &str)] = &[
    ("o = )", ")"),
    ("o = a = b", "= b"),
    ("o = { \"é\" ~ a] }", "]"),
    ("o = \"\\xff\"", "\"\\xff\""),
    ("o = a - (f(b, i\"é\\u{d800}\") | c)", "i\"é\\u{d800}\""),
    ("o = 'a'..'\\x80'", "'\\x80'"),
    ("o = \"é\" ~ a{ 3..2 }", "3..2"),
    ("o = a{0}+", "0"),
    ("o = s[1..99999999999999999999]", "99999999999999999999"),
    ("use pest() as o", "pest()"),
    ("use @", "@"),
    ("use @ as o", "@"),
    ("use #", "#"),
];

struct Case {
    layout: usize,
    net: usize,
    /// The file that has the mistake.
    at: usize,
    mistake: usize,
    around: usize,
}
impl Case {
    /// The text of a file, and where it is at fault.
    fn text(&self, i: usize) -> (String, Option<usize>) {
        let l = &LAYOUTS[self.layout];
        let mut o = String::from("//! é\n");
        let mut us: Vec<String> = NETS[self.net][i].iter().map(|j| format!("use {}\n", spell(l, i, *j, false))).collect();
        let late = if us.len() > 1 { us.pop().unwrap() } else { String::new() };
        // With several imports the last one follows a rule.
        o.push_str(&us.concat());
        if !late.is_empty() {
            o.push_str("l = \"é\"\n");
            o.push_str(&late);
        }
        let mut at = None;
        if i == self.at {
            let (pre, post) = AROUND[self.around];
            let (m, part) = MISTAKES[self.mistake];
            let fill = |s: &str| s.replace('@', "super::no::where").replace('#', &spell(l, i, i, true));
            let (m, part) = (fill(m), fill(part));
            o.push_str(pre);
            let k = o.len();
            o.push_str(&m);
            o.push_str(post);
            at = Some(k + m.find(&part).unwrap());
            o.push('\n');
        }
        o.push_str(&format!("r{i} = \"{i}\"\n"));
        (o, at)
    }
    fn say(&self) -> String {
        let f: Vec<String> = (0..4).map(|i| format!("{}: {}", file(&LAYOUTS[self.layout], i), self.text(i).0.trim_end().replace('\n', "; "))).collect();
        f.join(" // ")
    }
    fn check(&self, p: &mut Part) {
        let l = &LAYOUTS[self.layout];
        let mut root = PathBuf::new();
        for i in (0..4).rev() {
            root = put(&file(l, i), &self.text(i).0);
        }
        let (text, at) = self.text(self.at);
        let at = at.unwrap();
        let rank = self.say().len() as u64;
        p.states += 4;
        p.traces += 1;
        p.evaluations += 1;
        p.transitions += 1;
        let Err(e) = parse(&self.text(0).0, &root) else {
            p.viol(rank, || format!("accepted: {}", self.say()), || "one of the files has a mistake".into());
            return;
        };
        p.nontrivial += 1;
        p.outcome("rejected");
        p.sample(4, || self.say());
        let canon = |q: PathBuf| q.canonicalize().unwrap_or(q);
        let want = canon(DIR.with(|d| d.join(file(l, self.at))));
        match e.path() {
            // The caller knows the file it asked for.
            None if self.at == 0 => (),
            Some(q) if canon(q.into()) == want => (),
            q => p.viol(rank, || format!("another file is blamed: {}", self.say()), || format!("{q:?} instead of {want:?}: {e}")),
        }
        let (InputLocation::Pos(s) | InputLocation::Span((s, _))) = e.location;
        let start = text[..at].rfind('\n').map_or(0, |i| i + 1);
        let lc = (text[..at].matches('\n').count() + 1, text[start..at].chars().count() + 1);
        let (LineColLocation::Pos(a) | LineColLocation::Span(a, _)) = e.line_col;
        if s != at || a != lc {
            p.viol(rank, || format!("another place is blamed: {}", self.say()), || format!("{s}, {a:?} instead of {at}, {lc:?}: {e}"));
        }
        // The one who derives a parser is told as much.
        let r = generate(&format!("#[grammar = {:?}]", root.to_string_lossy()));
        p.transitions += 1;
        let line = text[start..].split('\n').next().unwrap().trim_end_matches('\r');
        match r {
            Ok(_) => p.viol(rank, || format!("derived: {}", self.say()), || "one of the files has a mistake".into()),
            Err(m) => {
                let place = format!("{}:{}", lc.0, lc.1);
                // The message has lost its line ends.
                let told = m.split_whitespace().any(|x| x == place || x.ends_with(&format!(".pest:{place}")))
                    && m.contains(line)
                    && (self.at == 0 || m.contains(&format!("f{}.pest", self.at)));
                if !told {
                    p.viol(rank, || format!("the message does not tell: {}", self.say()), || format!("place {place}, line {line:?}, file {}: {m}", self.at));
                }
            }
        }
    }
}

pub fn run(_deep: bool, e: &mut Engine) {
    let dims = [LAYOUTS.len(), NETS.len(), 4, MISTAKES.len(), AROUND.len()];
    let get = |mut i: usize| {
        let mut d = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (around, mistake, at, net) = (d(dims[4]), d(dims[3]), d(dims[2]), d(dims[1]));
        Case { around, mistake, at, net, layout: d(dims[0]) }
    };
    let parts = each(dims.iter().product(), 16, |i| get(i).say(), |i, p| {
        let c = get(i);
        c.check(p)
    });
    e.add(format!("one mistake in one of four files: {dims:?} (layouts, imports, file, mistake, place)"), parts);
}
