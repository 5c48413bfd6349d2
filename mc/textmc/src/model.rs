//! Reference reader of grammar text: a recursive descent parser written from the documented
//! syntax, independent of the pest2 grammar and of the Pratt parser of the code.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct N {
    pub x: X,
    /// Exact source range for terminals; for the others from the first to the last terminal.
    pub s: usize,
    pub e: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum T {
    No,
    Opt,
    Man,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Args {
    Call(Vec<N>),
    Slice(Option<isize>, Option<isize>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum X {
    Str(String),
    Ins(String),
    Rng(char, char),
    Path(Vec<String>, Option<Args>),
    Pos(Box<N>),
    Neg(Box<N>),
    Seq(Box<N>, Box<N>, T),
    Cho(Box<N>, Box<N>),
    Opt(Box<N>),
    Rep(Box<N>),
    Rep1(Box<N>),
    RepN(Box<N>, Option<usize>, Option<usize>),
    Sep(Box<N>, T),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rule {
    pub doc: Vec<String>,
    pub name: String,
    pub args: Vec<String>,
    pub silent: bool,
    pub n: N,
    pub s: usize,
    pub e: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Import {
    pub path: Vec<String>,
    pub file: Option<String>,
    pub alias: String,
    /// The path.
    pub s: usize,
    pub e: usize,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct File {
    pub doc: Vec<String>,
    pub imports: Vec<Import>,
    pub rules: Vec<Rule>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ans {
    Ok(File),
    /// The syntax is wrong: must be rejected. No text that begins like this one up to the given
    /// place (where a token starts) is known to be read further.
    Err(usize),
    /// The syntax is right but the constructs at these places are at fault: must be rejected.
    Bad(Vec<Fault>),
    /// The documentation leaves it open; only totality is demanded.
    Open,
}

/// The bytes of a construct whose meaning is rejected although the syntax is right.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    pub s: usize,
    pub e: usize,
}
struct P<'a> {
    t: &'a str,
    p: usize,
    /// End of the last token.
    last: usize,
    /// Where the last number or character starts.
    start: usize,
    bad: Vec<Fault>,
    /// Furthest place where a token was looked for in vain.
    far: usize,
    open: bool,
}
type O<V> = Option<V>;

pub fn read(t: &str) -> Ans {
    let mut p = P { t, p: 0, last: 0, start: 0, bad: vec![], far: 0, open: false };
    let r = p.file();
    if p.open {
        return Ans::Open;
    }
    match r {
        Some(f) if p.bad.is_empty() => Ans::Ok(f),
        Some(_) => Ans::Bad(p.bad),
        None => Ans::Err(p.far),
    }
}

/// The characters a literal body stands for; `None` if an escape is malformed or out of range.
pub fn chars(body: &str) -> O<String> {
    let mut o = String::new();
    let mut i = body.chars();
    while let Some(c) = i.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        o.push(match i.next()? {
            'r' => '\r',
            'n' => '\n',
            't' => '\t',
            '0' => '\0',
            c @ ('"' | '\\' | '\'') => c,
            'x' => {
                let v = i.next()?.to_digit(16)? * 16 + i.next()?.to_digit(16)?;
                if v > 0x7f {
                    return None;
                }
                char::from_u32(v)?
            }
            'u' => {
                if i.next()? != '{' {
                    return None;
                }
                let (mut v, mut n) = (0, 0);
                loop {
                    match i.next()? {
                        '}' => break,
                        c => {
                            v = v * 16 + c.to_digit(16)?;
                            n += 1;
                            if n > 6 {
                                return None;
                            }
                        }
                    }
                }
                if n == 0 {
                    return None;
                }
                char::from_u32(v)?
            }
            _ => return None,
        });
    }
    Some(o)
}

fn al(c: char) -> bool {
    c == '_' || c.is_ascii_alphabetic()
}
fn aln(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric()
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.t[self.p..]
    }
    /// White space and comments.
    fn ws(&mut self) {
        loop {
            let r = self.rest();
            if let Some(c) = r.chars().next().filter(|c| matches!(c, ' ' | '\t' | '\n')) {
                self.p += c.len_utf8();
            } else if r.starts_with("\r\n") {
                self.p += 2;
            } else if r.starts_with("/*") {
                match block(r) {
                    Some(n) => self.p += n,
                    None => return,
                }
            } else if r.starts_with("//") && !r.starts_with("///") && !r.starts_with("//!") {
                self.p += eol(r);
            } else {
                return;
            }
        }
    }
    fn tok(&mut self, s: &str) -> O<()> {
        self.ws();
        if self.rest().starts_with(s) {
            self.p += s.len();
            self.last = self.p;
            Some(())
        } else {
            self.miss()
        }
    }
    fn miss<V>(&mut self) -> O<V> {
        self.far = self.far.max(self.p);
        None
    }
    fn fault(&mut self, s: usize) {
        self.bad.push(Fault { s, e: self.last });
    }
    /// Try `f`; go back if it fails.
    fn opt<V>(&mut self, f: impl FnOnce(&mut Self) -> O<V>) -> O<V> {
        let (p, l, b) = (self.p, self.last, self.bad.len());
        let r = f(self);
        if r.is_none() {
            self.bad.truncate(b);
            self.p = p;
            self.last = l;
        }
        r
    }
    fn ident(&mut self) -> O<String> {
        self.ws();
        let r = self.rest();
        let n = match r.chars().next() {
            Some(c) if al(c) => r.find(|c| !aln(c)).unwrap_or(r.len()),
            _ => return self.miss(),
        };
        self.p += n;
        self.last = self.p;
        Some(r[..n].into())
    }
    fn file(&mut self) -> O<File> {
        let mut f = File::default();
        loop {
            self.ws();
            match self.doc("//!") {
                Some(d) => f.doc.push(d),
                None => break,
            }
        }
        while let Some(i) = self.opt(Self::import) {
            f.imports.push(i);
        }
        let r = self.opt(Self::rule)?;
        f.rules.push(r);
        loop {
            if let Some(i) = self.opt(Self::import) {
                f.imports.push(i);
            } else if let Some(r) = self.opt(Self::rule) {
                f.rules.push(r);
            } else {
                break;
            }
        }
        self.ws();
        if self.p == self.t.len() {
            Some(f)
        } else {
            self.miss()
        }
    }
    fn doc(&mut self, mark: &str) -> O<String> {
        let r = self.rest();
        if !r.starts_with(mark) {
            return None;
        }
        let n = eol(r);
        self.p += n;
        self.last = self.p;
        Some(r[3..n].trim().into())
    }
    fn import(&mut self) -> O<Import> {
        self.ws();
        let r = self.rest();
        if r.starts_with("use") && !r[3..].starts_with(aln) && !r.starts_with("use ") {
            // `use` with a line break, a tabulator or a comment after it.
            let mut q = P { t: self.t, p: self.p + 3, last: 0, start: 0, bad: vec![], far: 0, open: false };
            if q.ident().is_some() {
                self.open = true;
            }
            return None;
        }
        if !r.starts_with("use ") {
            return None;
        }
        self.p += 4;
        self.ws();
        let s = self.p;
        let path = self.path()?;
        if matches!(path, X::Path(_, Some(_))) {
            // A module has neither arguments nor slices.
            self.fault(s);
        }
        let path_end = self.last;
        let file = self.opt(|p| {
            p.tok("in")?;
            p.ws();
            let s = p.p;
            let b = p.string()?;
            Some(p.literal(b, s))
        });
        let alias = self.opt(|p| {
            p.tok("as")?;
            if p.rest().starts_with(aln) {
                return None;
            }
            p.ident()
        });
        let X::Path(path, _) = path else { unreachable!() };
        let alias = alias.unwrap_or_else(|| path.last().unwrap().clone());
        Some(Import { path, file, alias, s, e: path_end })
    }
    fn rule(&mut self) -> O<Rule> {
        let mut doc = vec![];
        self.ws();
        let s = self.p;
        loop {
            self.ws();
            match self.doc("///") {
                Some(d) => doc.push(d),
                None => break,
            }
        }
        let name = match self.opt(Self::ident) {
            Some(n) => n,
            None => match self.opt(|p| p.tok("~")) {
                Some(()) => "~".into(),
                None => {
                    self.tok("^")?;
                    "^".into()
                }
            },
        };
        let args = self
            .opt(|p| {
                p.tok("(")?;
                let mut v = vec![];
                if let Some(i) = p.opt(Self::ident) {
                    v.push(i);
                    while let Some(i) = p.opt(|p| {
                        p.tok(",")?;
                        p.ident()
                    }) {
                        v.push(i);
                    }
                    p.opt(|p| p.tok(","));
                }
                p.tok(")")?;
                Some(v)
            })
            .unwrap_or_default();
        self.tok("=")?;
        let silent = self
            .opt(|p| {
                p.tok("_")?;
                if p.rest().starts_with(al) {
                    None
                } else {
                    Some(())
                }
            })
            .is_some();
        let n = match self.opt(|p| {
            p.tok("{")?;
            let n = p.expr()?;
            p.tok("}")?;
            Some(n)
        }) {
            Some(n) => n,
            None => self.expr()?,
        };
        Some(Rule { doc, name, args, silent, n, s, e: self.last })
    }
    /// `|`, or with a trivia mark that has no meaning there.
    fn bar(&mut self) -> O<()> {
        // One token: what goes wrong behind the mark goes wrong with the whole of it.
        self.ws();
        let far = self.far.max(self.p);
        if self.opt(|p| p.tok("~")).is_none() {
            self.opt(|p| p.tok("^"));
        }
        let r = self.tok("|");
        self.far = far;
        r
    }
    fn expr(&mut self) -> O<N> {
        // A leading bar only in front of alternatives.
        let lead = self.opt(|p| {
            p.opt(|p| p.bar());
            let t = p.term()?;
            p.bar()?;
            let u = p.term()?;
            Some((t, u))
        });
        let mut terms = vec![];
        // Operator before each further term: `None` is a choice.
        let mut ops: Vec<O<T>> = vec![];
        match lead {
            Some((t, u)) => {
                terms.push(t);
                ops.push(None);
                terms.push(u);
            }
            None => terms.push(self.term()?),
        }
        while let Some((o, t)) = self.opt(|p| {
            let o = if p.opt(|p| p.bar()).is_some() {
                None
            } else if p.opt(|p| p.tok("-")).is_some() {
                Some(T::No)
            } else if p.opt(|p| p.tok("~")).is_some() {
                Some(T::Opt)
            } else {
                p.tok("^")?;
                Some(T::Man)
            };
            Some((o, p.term()?))
        }) {
            ops.push(o);
            terms.push(t);
        }
        // Choice binds loosest, everything associates to the right.
        let mut alts: Vec<(Vec<N>, Vec<T>)> = vec![(vec![], vec![])];
        for (i, t) in terms.into_iter().enumerate() {
            if i > 0 {
                match ops[i - 1] {
                    None => alts.push((vec![], vec![])),
                    Some(o) => alts.last_mut().unwrap().1.push(o),
                }
            }
            alts.last_mut().unwrap().0.push(t);
        }
        let seqs: Vec<N> = alts
            .into_iter()
            .map(|(ts, os)| {
                let mut i = ts.into_iter().rev();
                let mut acc = i.next().unwrap();
                for (t, o) in i.zip(os.into_iter().rev()) {
                    let (s, e) = (t.s, acc.e);
                    acc = N { x: X::Seq(Box::new(t), Box::new(acc), o), s, e };
                }
                acc
            })
            .collect();
        let mut i = seqs.into_iter().rev();
        let mut acc = i.next().unwrap();
        for t in i {
            let (s, e) = (t.s, acc.e);
            acc = N { x: X::Cho(Box::new(t), Box::new(acc)), s, e };
        }
        Some(acc)
    }
    fn term(&mut self) -> O<N> {
        let mut pre = vec![];
        loop {
            if self.opt(|p| p.tok("&")).is_some() {
                pre.push(true);
            } else if self.opt(|p| p.tok("!")).is_some() {
                pre.push(false);
            } else {
                break;
            }
        }
        let mut n = match self.opt(|p| {
            p.tok("(")?;
            let n = p.expr()?;
            p.tok(")")?;
            Some(n)
        }) {
            Some(n) => n,
            None => self.terminal()?,
        };
        while let Some(f) = self.opt(Self::postfix) {
            n = f(n);
        }
        for pos in pre.into_iter().rev() {
            let (s, e) = (n.s, n.e);
            n = N { x: if pos { X::Pos(Box::new(n)) } else { X::Neg(Box::new(n)) }, s, e };
        }
        Some(n)
    }
    fn postfix(&mut self) -> O<Box<dyn FnOnce(N) -> N>> {
        let t = if self.opt(|p| p.tok("~")).is_some() {
            T::Opt
        } else if self.opt(|p| p.tok("^")).is_some() {
            T::Man
        } else {
            T::No
        };
        let sep = move |n: N| {
            if t == T::No {
                Box::new(n)
            } else {
                let (s, e) = (n.s, n.e);
                Box::new(N { x: X::Sep(Box::new(n), t), s, e })
            }
        };
        macro_rules! f {
            ($v:ident) => {
                return Some(Box::new(move |n: N| N { s: n.s, e: n.e, x: X::$v(sep(n)) }))
            };
        }
        if self.opt(|p| p.tok("?")).is_some() {
            f!(Opt)
        }
        if self.opt(|p| p.tok("*")).is_some() {
            f!(Rep)
        }
        if self.opt(|p| p.tok("+")).is_some() {
            f!(Rep1)
        }
        self.tok("{")?;
        self.ws();
        let s = self.p;
        // Saturated when too big.
        let big = usize::MAX as u128;
        let number = |p: &mut Self| {
            let n = p.number()?;
            if n > big {
                p.fault(p.start);
            }
            Some(n)
        };
        let a = self.opt(number);
        let dots = self.opt(|p| p.tok("..")).is_some();
        if a.is_none() && !dots {
            return None;
        }
        let b = if dots { self.opt(number) } else { a };
        if b == Some(0) || matches!((a, b), (Some(a), Some(b)) if a > b) {
            self.fault(s);
        }
        self.tok("}")?;
        let (a, b) = (a.map(|a| a as usize), b.map(|b| b as usize));
        Some(Box::new(move |n: N| N { s: n.s, e: n.e, x: X::RepN(sep(n), a, b) }))
    }
    fn number(&mut self) -> O<u128> {
        self.ws();
        self.start = self.p;
        self.digits()
    }
    fn digits(&mut self) -> O<u128> {
        let r = self.rest();
        let n = match r.chars().next() {
            Some('0') => 1,
            Some('1'..='9') => r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len()),
            _ => {
                self.far = self.far.max(self.start);
                return None;
            }
        };
        self.p += n;
        self.last = self.p;
        Some(r[..n].parse().unwrap_or(u128::MAX))
    }
    fn integer(&mut self) -> O<O<isize>> {
        self.ws();
        self.start = self.p;
        let neg = self.rest().starts_with('-');
        if neg || self.rest().starts_with('+') {
            self.p += 1;
        }
        let v = self.digits()?;
        let lim = isize::MAX as u128 + neg as u128;
        if v > lim {
            self.fault(self.start);
            return Some(None);
        }
        Some(Some(if neg { (v as i128).wrapping_neg() as isize } else { v as isize }))
    }
    fn string(&mut self) -> O<&'a str> {
        // Quotes with a body of plain characters and escapes.
        let r = self.rest();
        if !r.starts_with('"') {
            return self.miss();
        }
        let mut i = 1;
        loop {
            let n = match r[i..].chars().next() {
                Some('"') => break,
                Some('\\') => escape(&r[i..]),
                c => c.map(char::len_utf8),
            };
            match n {
                Some(n) => i += n,
                None => {
                    self.far = self.far.max(self.p + i);
                    return None;
                }
            }
        }
        self.p += i + 1;
        self.last = self.p;
        Some(&r[1..i])
    }
    /// The characters of a literal that starts at `s` and has just been read.
    fn literal(&mut self, body: &str, s: usize) -> String {
        chars(body).unwrap_or_else(|| {
            self.fault(s);
            String::new()
        })
    }
    fn terminal(&mut self) -> O<N> {
        self.ws();
        let s = self.p;
        let x = self.terminal_()?;
        Some(N { x, s, e: self.last })
    }
    fn terminal_(&mut self) -> O<X> {
        let r = self.rest();
        let s = self.p;
        if let Some(b) = self.opt(Self::string) {
            return Some(X::Str(self.literal(b, s)));
        }
        if r.starts_with('r') {
            let n = r[1..].find(|c| c != '#').unwrap_or(r.len() - 1);
            if r[1 + n..].starts_with('"') {
                let body = &r[n + 2..];
                let end = format!("\"{}", "#".repeat(n));
                if let Some(k) = body.find(&end) {
                    self.p += n + 2 + k + end.len();
                    self.last = self.p;
                    return Some(X::Str(body[..k].into()));
                }
                // It never ends.
                self.far = self.t.len();
            } else {
                self.far = self.far.max(s + 1 + n);
            }
        }
        if r.starts_with("i\"") {
            if let Some(b) = self.opt(|p| {
                p.p += 1;
                p.string()
            }) {
                return Some(X::Ins(self.literal(b, s)));
            }
        }
        if let Some(p) = self.opt(Self::path) {
            return Some(p);
        }
        let a = self.chr()?;
        self.tok("..")?;
        self.ws();
        let b = self.chr()?;
        Some(X::Rng(a, b))
    }
    fn chr(&mut self) -> O<char> {
        let (r, s) = (self.rest(), self.p);
        self.far = self.far.max(s);
        let b = r.strip_prefix('\'')?;
        let n = escape(b).or(b.chars().next().map(char::len_utf8)).unwrap_or(0);
        self.far = self.far.max(s + 1 + n);
        if !b[n..].starts_with('\'') {
            return None;
        }
        self.p += n + 2;
        self.last = self.p;
        // A lone backslash is no escape.
        let c = self.literal(&b[..n], s);
        Some(c.chars().next().unwrap_or('?'))
    }
    fn path(&mut self) -> O<X> {
        let mut v = vec![self.ident()?];
        while let Some(i) = self.opt(|p| {
            p.tok("::")?;
            p.ident()
        }) {
            v.push(i);
        }
        let call = self.opt(|p| {
            p.tok("(")?;
            let mut v = vec![];
            if let Some(e) = p.opt(Self::expr) {
                v.push(e);
                while let Some(e) = p.opt(|p| {
                    p.tok(",")?;
                    p.expr()
                }) {
                    v.push(e);
                }
                p.opt(|p| p.tok(","));
            }
            p.tok(")")?;
            Some(Args::Call(v))
        });
        let args = match call {
            Some(c) => Some(c),
            None => self.opt(|p| {
                p.tok("[")?;
                let a = p.opt(Self::integer);
                p.tok("..")?;
                let b = p.opt(Self::integer);
                p.tok("]")?;
                Some(Args::Slice(a.flatten(), b.flatten()))
            }),
        };
        Some(X::Path(v, args))
    }
}

/// Length of the line without its end.
fn eol(r: &str) -> usize {
    let a = r.find('\n').unwrap_or(r.len());
    // A carriage return belongs to the line end only in front of a line feed.
    if a < r.len() && r[..a].ends_with('\r') {
        a - 1
    } else {
        a
    }
}
/// Length of a nested block comment.
fn block(r: &str) -> O<usize> {
    let mut i = 2;
    loop {
        let s = &r[i..];
        if s.starts_with("*/") {
            return Some(i + 2);
        }
        if s.starts_with("/*") {
            if let Some(n) = block(s) {
                i += n;
                continue;
            }
        }
        i += s.chars().next()?.len_utf8();
    }
}
/// Length of a well-formed escape.
fn escape(r: &str) -> O<usize> {
    let b = r.strip_prefix('\\')?;
    match b.chars().next()? {
        'r' | 'n' | 't' | '0' | '"' | '\\' | '\'' => Some(2),
        'x' if b.len() >= 3 && b.bytes().skip(1).take(2).all(|c| c.is_ascii_hexdigit()) => Some(4),
        'u' => {
            let h = b[1..].strip_prefix('{')?;
            let n = h.find('}')?;
            if (1..=6).contains(&n) && h[..n].bytes().all(|c| c.is_ascii_hexdigit()) {
                Some(n + 4)
            } else {
                None
            }
        }
        _ => None,
    }
}
