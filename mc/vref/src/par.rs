//! Exhaustive parallel iteration over a finite index space, with a watch on steps that hang.
use crate::evid::Part;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

/// A single step normally takes far less than a second.
pub const HANG: Duration = Duration::from_secs(60);

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Memory held by this process, in MB.
pub fn rss() -> usize {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<usize>().ok()).unwrap_or(0) / 256
}
/// More memory than this no check needs: the code under test grows something without end.
pub fn memory_limit() -> usize {
    std::env::var("MC_MEMORY_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(4_000)
}

/// Install once per engine: remembers panic messages for `guard`.
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        LAST.with(|l| *l.borrow_mut() = i.to_string().replace('\n', " "));
    }));
}
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

/// Run one case; a panic of the code under test is a violation.
pub fn guard(p: &mut Part, rank: u64, key: impl Fn() -> String, f: impl FnOnce(&mut Part)) {
    if catch_unwind(AssertUnwindSafe(|| f(p))).is_err() {
        p.outcome("panicked");
        p.viol(rank, key, || format!("panicked: {}", last_panic()));
    }
}

/// Runs `f(i, &mut part)` for every i in 0..n, in chunks taken in order; returns all parts.
/// `say(i)` describes index i should the code under test hang in it or panic outside `guard`.
pub fn each(n: usize, chunk: usize, say: impl Fn(usize) -> String + Sync, f: impl Fn(usize, &mut Part) + Sync) -> Vec<Part> {
    let next = AtomicUsize::new(0);
    let running = AtomicUsize::new(threads());
    let (f, next, say, running) = (&f, &next, &say, &running);
    let at: Vec<Mutex<(Instant, usize)>> = (0..threads()).map(|_| Mutex::new((Instant::now(), usize::MAX))).collect();
    let at = &at;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads())
            .map(|w| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut a = Part::default();
                        loop {
                            let i = next.fetch_add(chunk, Ordering::Relaxed);
                            if i >= n {
                                *at[w].lock().unwrap() = (Instant::now(), usize::MAX);
                                running.fetch_sub(1, Ordering::SeqCst);
                                return a;
                            }
                            for j in i..(i + chunk).min(n) {
                                *at[w].lock().unwrap() = (Instant::now(), j);
                                guard(&mut a, 0, || say(j), |a| f(j, a));
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        let mut k = 0u32;
        let limit = memory_limit();
        while running.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(2));
            k += 1;
            if k % 50 == 0 && rss() > limit {
                // The step that has been running longest.
                let now: Vec<(Instant, usize)> = at.iter().map(|a| *a.lock().unwrap()).filter(|x| x.1 != usize::MAX).collect();
                if let Some((_, j)) = now.iter().min() {
                    crate::evid::hang(&say(*j), "memory grows without end");
                }
            }
            if k % 500 == 0 {
                for w in 0..threads() {
                    let (t, j) = *at[w].lock().unwrap();
                    if j != usize::MAX && t.elapsed() > HANG {
                        crate::evid::hang(&say(j), "no answer within 60 s (these steps take microseconds)");
                    }
                }
            }
        }
        hs.into_iter().map(|h| h.join().expect("worker panicked")).collect()
    })
}

/// All strings over `alphabet` with at most `max` characters, shortest first.
pub fn strings(alphabet: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for c in alphabet {
                let mut t = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
