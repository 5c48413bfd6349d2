//! Exhaustive enumeration of expressions by size.
use crate::expr::*;

pub type Un = Box<dyn Fn(E) -> E + Sync + Send>;
pub type Bi = Box<dyn Fn(E, E) -> E + Sync + Send>;

/// The alphabet of an expression space.
pub struct Alpha {
    pub leaves: Vec<E>,
    pub un: Vec<Un>,
    pub bi: Vec<Bi>,
}

/// Every expression over the alphabet with exactly n operators and leaves, for n in 1..=max
/// (index 0 is empty).
pub fn levels(a: &Alpha, max: usize) -> Vec<Vec<E>> {
    let mut l: Vec<Vec<E>> = vec![vec![], a.leaves.clone()];
    for n in 2..=max {
        let mut v = vec![];
        for e in &l[n - 1] {
            for u in &a.un {
                v.push(u(e.clone()));
            }
        }
        for i in 1..n - 1 {
            for x in &l[i] {
                for y in &l[n - 1 - i] {
                    for b in &a.bi {
                        v.push(b(x.clone(), y.clone()));
                    }
                }
            }
        }
        l.push(v);
    }
    l.truncate(max + 1);
    l
}

/// Size of level n without building it.
pub fn count(a: &Alpha, n: usize) -> u64 {
    let mut c = vec![0u64, a.leaves.len() as u64];
    for k in 2..=n {
        let mut x = c[k - 1] * a.un.len() as u64;
        for i in 1..k - 1 {
            x += c[i] * c[k - 1 - i] * a.bi.len() as u64;
        }
        c.push(x);
    }
    c[n]
}

/// The k-th expression of size n, given all smaller levels (built up to n - 1).
pub fn nth(a: &Alpha, l: &[Vec<E>], n: usize, mut k: u64) -> E {
    if n < l.len() {
        return l[n][k as usize].clone();
    }
    let us = a.un.len() as u64;
    let c = l[n - 1].len() as u64 * us;
    if k < c {
        return a.un[(k % us) as usize](l[n - 1][(k / us) as usize].clone());
    }
    k -= c;
    let bs = a.bi.len() as u64;
    for i in 1..n - 1 {
        let (x, y) = (&l[i], &l[n - 1 - i]);
        let c = x.len() as u64 * y.len() as u64 * bs;
        if k < c {
            let b = (k % bs) as usize;
            k /= bs;
            return a.bi[b](
                x[(k / y.len() as u64) as usize].clone(),
                y[(k % y.len() as u64) as usize].clone(),
            );
        }
        k -= c;
    }
    unreachable!()
}
