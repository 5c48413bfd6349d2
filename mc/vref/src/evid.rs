//! What an engine reports: counts, samples, violations. Written as JSON for tools/check.py.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Viol {
    /// Sort key: smaller is simpler.
    pub rank: u64,
    /// Identifies the failing input, call site or history (for the known-findings file).
    pub key: String,
    pub detail: String,
}

#[derive(Default, Clone)]
pub struct Part {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub skipped: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub nviol: u64,
}

impl Part {
    pub fn outcome(&mut self, k: &str) {
        if let Some(x) = self.outcomes.get_mut(k) {
            *x += 1;
        } else {
            self.outcomes.insert(k.into(), 1);
        }
    }
    pub fn sample(&mut self, max: usize, f: impl FnOnce() -> String) {
        if self.samples.len() < max {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn viol(&mut self, rank: u64, key: impl FnOnce() -> String, detail: impl FnOnce() -> String) {
        self.nviol += 1;
        // Keep the simplest few.
        if self.viols.len() < 20 || self.viols.iter().any(|v| v.rank > rank) {
            if self.viols.len() >= 20 {
                let i = (0..self.viols.len()).max_by_key(|i| self.viols[*i].rank).unwrap();
                self.viols.swap_remove(i);
            }
            let mut d = detail();
            if let Some((i, _)) = d.char_indices().nth(4000) {
                d.truncate(i);
                d += " ..";
            }
            self.viols.push(Viol { rank, key: key(), detail: d });
        }
    }
    pub fn merge(&mut self, o: Part) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.skipped += o.skipped;
        self.nviol += o.nviol;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.viols.extend(o.viols);
        self.viols.sort_by(|a, b| (a.rank, &a.key).cmp(&(b.rank, &b.key)));
        self.viols.truncate(20);
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One engine run: named sub-spaces with their parts.
#[derive(Default)]
pub struct Engine {
    pub name: String,
    pub spaces: Vec<(String, Part)>,
}

impl Engine {
    pub fn add(&mut self, space: impl Into<String>, parts: Vec<Part>) {
        let mut p = Part::default();
        for q in parts {
            p.merge(q);
        }
        let space = space.into();
        eprintln!(
            "[{}] {}: states={} transitions={} traces={} evals={} nontrivial={} skipped={} violations={} outcomes={:?}",
            self.name, space, p.states, p.transitions, p.traces, p.evaluations, p.nontrivial, p.skipped, p.nviol, p.outcomes
        );
        self.spaces.push((space, p));
    }
    pub fn failed(&self) -> bool {
        self.spaces.iter().any(|s| s.1.nviol > 0)
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        write!(o, "\"engine\":{},\"spaces\":[", js(&self.name)).unwrap();
        for (i, (n, p)) in self.spaces.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            write!(
                o,
                "{{\"space\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"evaluations\":{},\"nontrivial\":{},\"skipped\":{},\"nviol\":{},",
                js(n), p.states, p.transitions, p.traces, p.evaluations, p.nontrivial, p.skipped, p.nviol
            )
            .unwrap();
            o.push_str("\"outcomes\":{");
            for (j, (k, v)) in p.outcomes.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                write!(o, "{}:{}", js(k), v).unwrap();
            }
            o.push_str("},\"samples\":[");
            o.push_str(&p.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
            o.push_str("],\"violations\":[");
            for (j, v) in p.viols.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                write!(o, "{{\"rank\":{},\"key\":{},\"detail\":{}}}", v.rank, js(&v.key), js(&v.detail)).unwrap();
            }
            o.push_str("]}");
        }
        o.push_str("]}");
        o
    }
    pub fn finish(self, out: &str) -> ! {
        std::fs::write(out, self.json()).expect("cannot write engine report");
        std::process::exit(if self.failed() { 1 } else { 0 })
    }
}

/// `engine PROP TIER OUT`
pub fn args() -> (String, bool, String) {
    let a: Vec<String> = std::env::args().collect();
    crate::par::hook();
    *OUT.lock().unwrap() = a[3].clone();
    (a[1].clone(), a[2] == "thorough", a[3].clone())
}

static OUT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// The code under test does not answer: report that and end.
pub fn hang(what: &str, why: &str) -> ! {
    let mut p = Part { states: 1, transitions: 1, traces: 1, evaluations: 1, nontrivial: 1, ..Part::default() };
    p.viol(0, || what.to_string(), || why.to_string());
    let e = Engine { name: "watchdog".into(), spaces: vec![("hang".into(), p)] };
    let out = OUT.lock().unwrap().clone();
    e.finish(&out)
}
