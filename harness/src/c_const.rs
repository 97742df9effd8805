//! C11, C12: the shipped constants. C23: descriptors.
use crate::bridge::*;
use crate::dynp::*;
use crate::gen::*;
use crate::rep::*;
use crate::rf::{big, Fe};
use crate::rounds;
use crate::spec::*;
use poseidon_parameters::v1::{Alpha, RoundNumbers};

fn cmp(t: &mut Tally, rate: usize, what: &str, got: &Mat, want: &Mat) {
    if (got.r, got.c) != (want.r, want.c) {
        t.fail(format!("rate {}: {} is {}x{} instead of {}x{}", rate, what, got.r, got.c, want.r, want.c), what);
        return;
    }
    for i in 0..want.d.len() {
        t.eval(key_of(rate as u64 * 100, &[want.d[i], Fe::from_u64(i as u64), Fe::from_u64(hash_str(what))]), true);
        if got.d[i] != want.d[i] {
            t.fail(
                format!("rate {}: {} ({}, {}) is {} instead of {}", rate, what, i / want.c, i % want.c, got.d[i].hex(), want.d[i].hex()),
                format!("RATE_{}_PARAMS {}", rate, what),
            );
        }
    }
    t.count(&format!("{}_elements", what.replace(' ', "_")), want.d.len() as u64);
}
/// The compiled elements also behave as the canonical elements they encode.
fn canonical(t: &mut Tally, rate: usize, what: &str, e: &[Fq]) {
    for (i, x) in e.iter().enumerate() {
        let v = fe(x);
        if *x != fq(v) || *x != fq_bytes(v) {
            t.fail(format!("rate {}: {} element {} differs from the canonical element with the same encoding {}", rate, what, i, v.hex()), what);
        }
        t.count("canonical_elements", 1);
    }
}
macro_rules! for_rates {
    ($m:ident) => {
        $m!(1, RATE_1_PARAMS);
        $m!(2, RATE_2_PARAMS);
        $m!(3, RATE_3_PARAMS);
        $m!(4, RATE_4_PARAMS);
        $m!(5, RATE_5_PARAMS);
        $m!(6, RATE_6_PARAMS);
        $m!(7, RATE_7_PARAMS);
    };
}

pub fn c11(ctx: &Ctx) -> Tally {
    let mut t = Tally::default();
    // the reference's own choice of exponent and round numbers
    let chain = [3u32, 5, 9, 7, 17, 15, 13, 11];
    let alpha = *chain.iter().find(|a| big::gcd_pm1(**a as u64) == 1).unwrap();
    let mut log2p = 0.0f64;
    for i in (0..4).rev() {
        log2p = log2p * 18446744073709551616.0 + crate::rf::P[i] as f64;
    }
    let log2p = log2p.log2();
    for rate in 1..=7 {
        let w = shipped(rate);
        let ch = rounds::choices(128, rate + 1, log2p, rounds::A::Pow(alpha), &|_, _| true);
        assert!(w.sbox == Sbox::Pow(alpha) && ch == vec![(w.rf, w.rp)], "harness: reference parameters {:?} {:?}", alpha, ch);
        let p = shipped_params(rate);
        let b = p.base();
        for (what, g, w) in [("security level", p.level(), 128), ("full rounds", b.rf, w.rf), ("partial rounds", b.rp, w.rp), ("width", p.t(), rate + 1)] {
            if g != w {
                t.fail(format!("rate {}: {} is {} instead of {}", rate, what, g, w), what);
            }
            t.eval(hash_str(what) ^ rate as u64, true);
        }
        if b.sbox != w.sbox {
            t.fail(format!("rate {}: S-box is {:?} instead of {:?}", rate, b.sbox, w.sbox), "alpha");
        }
        t.eval(hash_str("alpha") ^ rate as u64, true);
        cmp(&mut t, rate, "mds", &b.mds, &w.mds);
        cmp(&mut t, rate, "arc", &b.arc, &w.arc);
        // every square submatrix of the shipped matrix is regular
        let n = rate + 1;
        if t.viol.is_empty() {
            for rows in 1u32..1 << n {
                for cols in 1u32..1 << n {
                    if rows.count_ones() != cols.count_ones() {
                        continue;
                    }
                    let ri: Vec<usize> = (0..n).filter(|i| rows >> i & 1 == 1).collect();
                    let ci: Vec<usize> = (0..n).filter(|i| cols >> i & 1 == 1).collect();
                    let mut d = Vec::new();
                    for &i in &ri {
                        for &j in &ci {
                            d.push(b.mds.at(i, j));
                        }
                    }
                    if Mat::new(ri.len(), ri.len(), d).det().is_zero() {
                        t.fail(format!("rate {}: the MDS submatrix with rows {:?} and columns {:?} is singular", rate, ri, ci), "mds");
                    }
                    t.count("square_submatrices", 1);
                }
            }
        }
        t.sample(|| format!("rate {}: arc (0,0) = {}, mds (0,0) = {}", rate, b.arc.d[0].hex(), b.mds.d[0].hex()));
    }
    macro_rules! canon {
        ($r:expr, $p:ident) => {
            canonical(&mut t, $r, "mds", poseidon_parameters::v1::MatrixOperations::elements(&poseidon377::$p.mds));
            canonical(&mut t, $r, "arc", poseidon_parameters::v1::MatrixOperations::elements(&poseidon377::$p.arc));
        };
    }
    for_rates!(canon);
    let _ = ctx;
    t
}

pub fn c12(ctx: &Ctx) -> Tally {
    let _ = ctx;
    let mut t = Tally::default();
    for rate in 1..=7 {
        let p = shipped_params(rate);
        let b = p.base();
        let o = p.opt();
        let n = rate + 1;
        let w = match derive_opt(&b) {
            None => {
                t.fail(format!("rate {}: the shipped MDS matrix does not admit the optimised form", rate), "mds");
                continue;
            }
            Some(w) => w,
        };
        for (what, g, w) in [
            ("M_hat", &o.m_hat, &w.m_hat),
            ("M_hat_inverse", &o.m_hat_inv, &w.m_hat_inv),
            ("v", &o.v, &w.v),
            ("w", &o.w, &w.w),
            ("M_prime", &o.m_prime, &w.m_prime),
            ("M_doubleprime", &o.m_doubleprime, &w.m_doubleprime),
            ("M_inverse", &o.m_inv, &w.m_inv),
            ("M_i", &o.m_i, &w.m_i),
            ("optimized_arc", &o.arc, &w.arc),
        ] {
            cmp(&mut t, rate, what, g, w);
        }
        cmp(&mut t, rate, "M_00", &Mat::new(1, 1, vec![o.m00]), &Mat::new(1, 1, vec![w.m00]));
        if o.v_coll.len() != b.rp || o.w_hat_coll.len() != b.rp {
            t.fail(format!("rate {}: {} and {} sparse vectors for {} partial rounds", rate, o.v_coll.len(), o.w_hat_coll.len(), b.rp), "collections");
            continue;
        }
        for k in 0..b.rp {
            cmp(&mut t, rate, &format!("v_collection[{}]", k), &Mat::new(1, n - 1, o.v_coll[k].clone()), &Mat::new(1, n - 1, w.v_coll[k].clone()));
            cmp(&mut t, rate, &format!("w_hat_collection[{}]", k), &Mat::new(n - 1, 1, o.w_hat_coll[k].clone()), &Mat::new(n - 1, 1, w.w_hat_coll[k].clone()));
        }
        // identities evaluated on the stored values themselves
        for (what, ok) in [
            ("M_prime * M_doubleprime = mds", o.m_prime.mul(&o.m_doubleprime) == b.mds),
            ("M_inverse * mds = 1", o.m_inv.mul(&b.mds) == Mat::id(n) && b.mds.mul(&o.m_inv) == Mat::id(n)),
            ("M_hat_inverse * M_hat = 1", o.m_hat_inv.mul(&o.m_hat) == Mat::id(n - 1) && o.m_hat.mul(&o.m_hat_inv) == Mat::id(n - 1)),
        ] {
            if !ok {
                t.fail(format!("rate {}: {} does not hold", rate, what), what);
            }
            t.eval(hash_str(what) ^ rate as u64, true);
            t.count("identities", 1);
        }
        t.sample(|| format!("rate {}: w_hat_collection[0] = {}", rate, show(&o.w_hat_coll[0])));
    }
    macro_rules! canon {
        ($r:expr, $p:ident) => {{
            use poseidon_parameters::v1::MatrixOperations as M;
            let p = poseidon377::$p;
            let o = &p.optimized_mds;
            canonical(&mut t, $r, "optimized_arc", p.optimized_arc.elements());
            canonical(&mut t, $r, "M_hat", o.M_hat.elements());
            canonical(&mut t, $r, "v", o.v.elements());
            canonical(&mut t, $r, "w", o.w.elements());
            canonical(&mut t, $r, "M_prime", o.M_prime.elements());
            canonical(&mut t, $r, "M_doubleprime", o.M_doubleprime.elements());
            canonical(&mut t, $r, "M_inverse", o.M_inverse.elements());
            canonical(&mut t, $r, "M_hat_inverse", o.M_hat_inverse.elements());
            canonical(&mut t, $r, "M_00", &[o.M_00]);
            canonical(&mut t, $r, "M_i", o.M_i.elements());
            for m in o.v_collection.iter() {
                canonical(&mut t, $r, "v_collection", m.elements());
            }
            for m in o.w_hat_collection.iter() {
                canonical(&mut t, $r, "w_hat_collection", m.elements());
            }
        }};
    }
    for_rates!(canon);
    t
}

pub fn c23(ctx: &Ctx) -> Tally {
    parallel(ctx, |c, r, t| {
        let mut exps: Vec<u32> = vec![0, 1, 2, 3, 5, 17, 127, 128, 255, 256, 257, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x01020304, 0x10203040];
        for k in 0..32 {
            exps.push(1 << k);
            exps.push(((1u64 << (k + 1)) - 1) as u32);
        }
        let reps = if cfg!(miri) { 100 } else { 4000 };
        for _ in 0..reps {
            exps.push(match r.below(3) {
                0 => r.u64() as u32,
                1 => (r.u64() as u32) >> r.below(32),
                _ => r.pick(&ctx.pool.all).0[0] as u32,
            });
        }
        // all small values and whole ranges in turn
        let lo = (c as u32).wrapping_mul(2048);
        exps.extend((0..if cfg!(miri) { 64 } else { 2048 }).map(|i| lo.wrapping_add(i)));
        let mut prev = 0u32;
        for e in exps {
            let a = Alpha::Exponent(e);
            let case = || format!("exponent {}", e);
            match guard(|| (a.to_bytes_le(), f64::from(a), a == Alpha::Exponent(prev), Alpha::Exponent(prev) == a, a == Alpha::Inverse, Alpha::Inverse == a, a == a.clone())) {
                Err(m) => t.fail(format!("Alpha::Exponent({}): panic {}", e, m), case()),
                Ok((b, f, q1, q2, i1, i2, s)) => {
                    let want = [(e & 255) as u8, (e >> 8 & 255) as u8, (e >> 16 & 255) as u8, (e >> 24) as u8];
                    if b != want {
                        t.fail(format!("Alpha::Exponent({}) is encoded as {:?} instead of {:?}", e, b, want), case());
                    }
                    if f != e as f64 {
                        t.fail(format!("Alpha::Exponent({}) converts to {}", e, f), case());
                    }
                    if q1 != (e == prev) || q2 != q1 || i1 || i2 || !s {
                        t.fail(format!("equality of Alpha::Exponent({}) with Exponent({}), Inverse and itself is {} {} {} {} {}", e, prev, q1, q2, i1, i2, s), case());
                    }
                    // the descriptor still denotes the same S-box
                    if let Alpha::Exponent(x) = a {
                        if x != e {
                            t.fail(format!("Alpha::Exponent({}) holds {}", e, x), case());
                        }
                    }
                }
            }
            t.eval(e as u64, true);
            prev = if r.chance(1, 4) { e } else { e ^ (1 << r.below(32)) };
        }
        let i = Alpha::Inverse;
        if i.to_bytes_le() != [255; 4] || f64::from(i) != -1.0 || i != Alpha::Inverse || i == Alpha::Exponent(u32::MAX) || i == Alpha::Exponent(0) {
            t.fail(format!("Alpha::Inverse: bytes {:?}, number {}", i.to_bytes_le(), f64::from(i)), "inverse");
        }
        t.count("alphas", 1);
        // histories of updates of round numbers
        for _ in 0..if cfg!(miri) { 4 } else { 200 } {
            let rnd = |r: &mut Rng| -> usize {
                match r.below(4) {
                    0 => r.below(4),
                    1 => r.below(300),
                    2 => (r.u64() as usize) >> 2,
                    _ => (r.u64() as usize) >> (2 + r.below(usize::BITS as usize - 3)),
                }
            };
            let (mut f, mut p) = (rnd(r), rnd(r));
            let mut x = RoundNumbers { r_F: f, r_P: p };
            let mut log = format!("r_F={} r_P={}", f, p);
            for _ in 0..8 {
                let y = x;
                match guard(|| (x.full(), x.partial(), x.total(), x == y, x.clone() == y)) {
                    Err(e) => t.fail(format!("RoundNumbers panicked: {}", e), log.clone()),
                    Ok(g) => {
                        if g != (f, p, f + p, true, true) || (x.r_F, x.r_P) != (f, p) {
                            t.fail(format!("RoundNumbers report (full, partial, total, equal, equal) = {:?} instead of {:?}", g, (f, p, f + p)), log.clone());
                            return;
                        }
                    }
                }
                t.eval(key_of(5, &[Fe::from_u64(f as u64), Fe::from_u64(p as u64)]), true);
                let v = rnd(r);
                match r.below(6) {
                    0 => {
                        *x.full_mut() = v;
                        f = v;
                        log += &format!("; full={}", v);
                    }
                    1 => {
                        *x.partial_mut() = v;
                        p = v;
                        log += &format!("; partial={}", v);
                    }
                    2 => {
                        *x.full_mut() += 2;
                        f += 2;
                        log += "; full+=2";
                    }
                    3 => {
                        *x.partial_mut() += 1;
                        p += 1;
                        log += "; partial+=1";
                    }
                    4 => {
                        x.r_F = v;
                        f = v;
                        log += &format!("; r_F={}", v);
                    }
                    _ => {
                        x.r_P = v;
                        p = v;
                        log += &format!("; r_P={}", v);
                    }
                }
                if (x == y) != (y.r_F == f && y.r_P == p) {
                    t.fail("equality of round numbers is wrong".to_string(), log.clone());
                }
                if *x.full_mut() != f || *x.partial_mut() != p {
                    t.fail("mutable accessors read something else".to_string(), log.clone());
                }
                if f > usize::MAX / 4 || p > usize::MAX / 4 {
                    break;
                }
            }
            t.count("round_number_histories", 1);
            t.sample(|| log.clone());
        }
    })
}
