//! C02: the permutation under arbitrary well-formed parameters.
use crate::bridge::*;
use crate::dynp::*;
use crate::gen::*;
use crate::rep::*;
use crate::rf::Fe;
use crate::spec::*;

/// decaf377's `power` multiplies e times, so very large exponents are only affordable on tiny shapes.
pub const EXPONENTS: [u32; 23] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 19, 31, 32, 255, 256, 257, 300, 1025, 65537, 65539,
];

/// On tiny shapes, now and then.
const HUGE: u32 = (1 << 20) + 3;

/// A random matrix usable as MDS matrix (invertible together with what the optimised form needs).
pub fn random_mds(r: &mut Rng, pool: &Pool, t: usize) -> (Mat, &'static str) {
    match r.below(8) {
        0 | 1 | 2 => {
            let mut m = Mat::zero(t, t);
            for x in m.d.iter_mut() {
                *x = r.fe();
            }
            (m, "uniform")
        }
        3 => {
            let off = r.below(1000) as u64;
            let mut m = Mat::zero(t, t);
            for i in 0..t {
                for j in 0..t {
                    *m.at_mut(i, j) = Fe::from_u64((i * (1 + t) + t * t + j) as u64 + off).inv().unwrap();
                }
            }
            (m, "cauchy-asymmetric")
        }
        4 => (cauchy(t), "cauchy"),
        5 => {
            let mut m = Mat::zero(t, t);
            for x in m.d.iter_mut() {
                *x = Fe::from_i64(r.below(9) as i64 - 4);
            }
            (m, "small-entries")
        }
        6 => {
            let mut m = Mat::zero(t, t);
            for x in m.d.iter_mut() {
                *x = pool.word(r);
            }
            (m, "hostile-entries")
        }
        _ => {
            // circulant
            let row: Vec<Fe> = (0..t).map(|_| pool.word(r)).collect();
            let mut m = Mat::zero(t, t);
            for i in 0..t {
                for j in 0..t {
                    *m.at_mut(i, j) = row[(j + t - i) % t];
                }
            }
            (m, "circulant")
        }
    }
}

/// Random well-formed parameters of the given shape.
pub fn random_params(r: &mut Rng, pool: &Pool, shape: (usize, usize, usize), exps: &[u32], inverse: bool) -> (Base, Opt, String) {
    let (t, rf, rp) = shape;
    loop {
        let sbox = if inverse && r.chance(1, 6) {
            Sbox::Inv
        } else if r.chance(1, 12) {
            Sbox::Pow(1 + r.below(2000) as u32)
        } else {
            Sbox::Pow(*r.pick(exps))
        };
        let sbox = if exps.len() == EXPONENTS.len() && t * rf + rp <= 5 && r.chance(1, 40) { Sbox::Pow(HUGE) } else { sbox };
        if let Sbox::Pow(e) = sbox {
            if e != HUGE && e as usize * (t * rf + rp) > 400_000 {
                continue;
            }
        }
        let (mds, mk) = random_mds(r, pool, t);
        let n = rf + rp;
        let (ak, d): (&str, Vec<Fe>) = match r.below(6) {
            0 => ("zero", vec![Fe::ZERO; n * t]),
            1 => ("hostile", (0..n * t).map(|_| pool.word(r)).collect()),
            2 => ("one-row", {
                let k = r.below(n);
                (0..n * t).map(|i| if i / t == k { r.fe() } else { Fe::ZERO }).collect()
            }),
            3 => ("small", (0..n * t).map(|_| Fe::from_u64(r.below(5) as u64)).collect()),
            _ => ("uniform", (0..n * t).map(|_| r.fe()).collect()),
        };
        let b = Base { t, rf, rp, sbox, mds, arc: Mat::new(n, t, d) };
        if let Some(o) = derive_opt(&b) {
            let desc = format!("t={} r_F={} r_P={} sbox={:?} mds={} constants={}", t, rf, rp, sbox, mk, ak);
            return (b, o, desc);
        }
    }
}

pub fn c02(ctx: &Ctx, _refs: &[Ref]) -> Tally {
    let per = if cfg!(miri) { 3 } else { 40 };
    parallel(ctx, |c, r, t| {
        // every shape in turn, then at random
        let shape = if (c as usize) < 2 * SHAPES.len() { SHAPES[c as usize % SHAPES.len()] } else { *r.pick(SHAPES) };
        let (b, o, desc) = random_params(r, &ctx.pool, shape, &EXPONENTS, true);
        let level = *r.pick(&[80usize, 128, 256, 0, usize::MAX]);
        let p = build_shape(&b, &o, level);
        let plain = Plan::plain(&b);
        let fast = Plan::optimised(&b, &o);
        let mut g = StateGen::new(&ctx.pool, vec![&plain, &fast]);
        let full = |inp: &[Fe]| format!("{}; mds={} constants={}; state {}", desc, show(&b.mds.d), if b.arc.d.iter().all(|x| x.is_zero()) { "0".into() } else { show(&b.arc.d) }, show(inp));
        let mut k = match guard(|| p.inst()) {
            Ok(k) => k,
            Err(e) => {
                t.fail(format!("creating an instance panicked: {} ({})", e, desc), desc.clone());
                return;
            }
        };
        let per = match b.sbox {
            Sbox::Pow(HUGE) => 1,
            Sbox::Pow(e) if e as usize * (shape.0 * shape.1 + shape.2) > 20_000 => 4,
            _ => per,
        };
        for i in 0..per {
            let (inp, _) = g.next(r);
            let want = plain.run(&inp);
            if i % 8 == 0 && fast.run(&inp) != want {
                panic!("harness: derived optimised constants are not equivalent for {}", full(&inp));
            }
            let v = fqv(&inp);
            for opt in [true, false] {
                let name = if opt { "optimised" } else { "unoptimised" };
                match guard(|| {
                    let x = if opt { k.opt(&v) } else { k.unopt(&v) };
                    (x, k.words())
                }) {
                    Err(e) => {
                        t.fail(format!("{} path panicked: {} ({})", name, e, desc), full(&inp));
                        return;
                    }
                    Ok((x, w)) => {
                        if w != fqv(&want) {
                            t.fail(format!("{} path leaves {} instead of {} ({})", name, show(&fev(&w)), show(&want), desc), full(&inp));
                        } else if !same(&x, want[1]) {
                            t.fail(format!("{} path returns {} instead of {} ({})", name, fe(&x).hex(), want[1].hex(), desc), full(&inp));
                        }
                    }
                }
                t.eval(key_of(c.wrapping_mul(2) + opt as u64, &inp), true);
            }
            g.note_output(want[1]);
            if !t.viol.is_empty() {
                return;
            }
            if i == 3 {
                t.sample(|| format!("{}; state {} -> {}", desc, show(&inp), show(&want)));
            }
        }
        t.count("parameter_sets", 1);
        t.count(&format!("shape_{}_{}_{}", shape.0, shape.1, shape.2), 1);
        t.count(&match b.sbox {
            Sbox::Inv => "sbox_inverse".to_string(),
            Sbox::Pow(e) if EXPONENTS.contains(&e) => format!("sbox_{}", e),
            _ => "sbox_random_exponent".to_string(),
        }, 1);
        t.count(&format!("{}", desc.split("mds=").nth(1).unwrap_or("")), 1);
    })
}
