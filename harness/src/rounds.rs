//! Round numbers from the inequalities of the Poseidon paper (Sections 5.4, 5.5, C.2), written from the paper's formulas.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A {
    Pow(u32),
    Inv,
}
/// How far (in rounds, as reals) the choice is from violating the closest inequality; positive = secure.
/// Each term is (value that must be > 0). Terms within `tol` of an integer boundary are reported through `fuzzy`.
pub struct Bounds {
    pub min_full: usize,
    pub min_full_alt: usize,
    /// total rounds (or floor(rf log2 t) + rp) must exceed each of these; two roundings when numerically ambiguous
    pub lo: f64,
    pub hi: f64,
}
const EPS: f64 = 1e-9;
fn ceil2(x: f64) -> (f64, f64) {
    ((x - EPS).ceil(), (x + EPS).ceil())
}
fn floor2(x: f64) -> (f64, f64) {
    ((x - EPS).floor(), (x + EPS).floor())
}
pub fn bounds(m: usize, t: usize, log2p: f64, a: A) -> Bounds {
    let (mf, tf) = (m as f64, t as f64);
    // statistical attacks
    let c = match a {
        A::Inv => 2.0,
        A::Pow(e) => ((e - 1) as f64).log2(),
    };
    let room = |l: f64| (l.floor() - c) * (tf + 1.0) - mf;
    let dec = |x: f64| if x >= 0.0 { 6 } else { 10 };
    let r1 = room(log2p);
    let exact = match a {
        A::Inv => true,
        A::Pow(e) => (e - 1).is_power_of_two(),
    };
    let (s1, s2) = if r1.abs() < EPS && !exact { (6, 10) } else { (dec(r1), dec(r1)) };
    let mn = mf.min(log2p);
    match a {
        A::Pow(e) => {
            let l2 = 1.0 / (e as f64).log2(); // log_e(2)
            // interpolation: total > ceil(ceil(log_e 2 * min) + log_e t)
            let (a1, a2) = ceil2(l2 * mn);
            let lt = tf.log2() / (e as f64).log2();
            let i1 = ceil2(a1 + lt).0;
            let i2 = ceil2(a2 + lt).1;
            // Groebner
            let g1 = l2 * (mf / 3.0).min(log2p / 2.0);
            let g2 = (tf - 1.0) + (l2 * mf / (tf + 1.0)).min(l2 * log2p / 2.0);
            let g = floor2(g1.max(g2));
            Bounds { min_full: s1, min_full_alt: s2, lo: i1.max(g.0), hi: i2.max(g.1) }
        }
        A::Inv => {
            let t1 = if t.is_power_of_two() { t.trailing_zeros() as f64 } else { tf.log2().ceil() };
            let (p1, p2) = ceil2(0.5 * log2p);
            let hm = (0.5 * mf).ceil();
            let i = (t1 + hm.min(p1), t1 + hm.min(p2));
            let q = ((m + t) / (t + 1)) as f64;
            let g2 = (tf - 1.0 + t1 + q.min(p1), tf - 1.0 + t1 + q.min(p2));
            Bounds { min_full: s1, min_full_alt: s2, lo: i.0.max(g2.0), hi: i.1.max(g2.1) }
        }
    }
}
/// Rounds with margin, minimal number of S-boxes, fewer full rounds on ties; all admissible answers when the
/// inequalities are numerically ambiguous.
pub fn choices(m: usize, t: usize, log2p: f64, a: A, extra: &dyn Fn(usize, usize) -> bool) -> Vec<(usize, usize)> {
    let b = bounds(m, t, log2p, a);
    let mut out = Vec::new();
    let mut cases = Vec::new();
    for minf in [b.min_full, b.min_full_alt] {
        let mut lim = b.lo;
        while lim <= b.hi {
            for strict in [false, true] {
                if !cases.contains(&(minf, lim, strict)) && (!strict || (a == A::Inv && !t.is_power_of_two())) {
                    cases.push((minf, lim, strict));
                }
            }
            lim += 1.0;
        }
    }
    for (minf, lim, strict) in cases {
        let mut best: Option<(usize, usize, usize)> = None; // cost, rf, rp (after margin)
        for rp in 1..400usize {
            for rf in 4..100usize {
                if rf < minf {
                    continue;
                }
                let total = match a {
                    A::Pow(_) => (rf + rp) as f64,
                    A::Inv => {
                        let x = rf as f64 * (t as f64).log2();
                        (if t.is_power_of_two() { (rf as u32 * t.trailing_zeros()) as f64 } else if strict { floor2(x).0 } else { floor2(x).1 }) + rp as f64
                    }
                };
                if total <= lim {
                    continue;
                }
                let (f, p) = (rf + 2, (43 * rp + 39) / 40); // ceil(1.075 rp)
                let cand = (t * f + p, f, p);
                if best.map_or(true, |b| (cand.0, cand.1) < (b.0, b.1)) && extra(rf, rp) {
                    best = Some(cand);
                }
            }
        }
        if let Some((_, f, p)) = best {
            if !out.contains(&(f, p)) {
                out.push((f, p));
            }
        }
    }
    out
}
