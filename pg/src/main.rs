#![allow(dead_code, unused_imports, unused_macros)]
//! Monitors of the parameter generator: round numbers (C20), S-box exponents (C21), round constants (C22).
mod fields;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/merlin.rs"]
mod merlin;
#[path = "../../harness/src/rep.rs"]
mod rep;
#[path = "../../harness/src/rf.rs"]
mod rf;
#[path = "../../harness/src/rounds.rs"]
mod rounds;
#[path = "../../harness/src/spec.rs"]
mod spec;

use ark_ff::{BigInt, BigInteger, Field, PrimeField};
use gen::{Pool, Rng};
use num_bigint::BigUint;
use paramgen::input::InputParameters;
use poseidon_parameters::v1::*;
use rep::*;
use rounds::A;
use std::time::{Duration, Instant};

fn alpha_of(a: A) -> Alpha {
    match a {
        A::Pow(e) => Alpha::Exponent(e),
        A::Inv => Alpha::Inverse,
    }
}

// ---------------------------------------------------------------- C20
/// (number of bits, log2), exact but for the last place; the logarithm of a number that is not a power of two never reaches the next integer.
fn log2p(l: &[u64]) -> (usize, f64) {
    let top = l.iter().rposition(|x| *x != 0).expect("not zero");
    let bits = 64 * top + 64 - l[top].leading_zeros() as usize;
    let z = l[top].leading_zeros();
    let x = if z == 0 || top == 0 { l[top] << z } else { l[top] << z | l[top - 1] >> (64 - z) };
    let mut r = (bits as f64 - 64.0) + (x as f64).log2();
    if r >= bits as f64 {
        r = f64::from_bits((bits as f64).to_bits() - 1);
    }
    if r < bits as f64 - 1.0 {
        r = bits as f64 - 1.0;
    }
    (bits, r)
}
/// log2 of the binomial coefficient
fn log2_binomial(n: usize, k: usize) -> f64 {
    let k = k.min(n - k);
    (0..k).map(|i| ((n - i) as f64).log2() - ((i + 1) as f64).log2()).sum()
}
/// Whether the improved Groebner-basis attack (2023/537, Section 4.3, item 1; omega = 2) costs at least m bits; `lax` decides numerically
/// close cases and whether the cost is rounded up before or after doubling.
fn groebner_v2_resists(m: usize, t: usize, e: u32, rf: usize, rp: usize, lax: bool) -> bool {
    let r = t / 3;
    let lower = r * (rf / 2) + rp + e as usize;
    let upper = (rf - 1) * t + rp + r + lower;
    let l = log2_binomial(upper, lower);
    if lax {
        2.0 * ((l + 1e-6).floor() + 1.0) >= m as f64
    } else {
        (2.0 * l - 1e-6).ceil() >= m as f64
    }
}

fn modulus(r: &mut Rng) -> (Vec<u64>, &'static str) {
    let named: [usize; 12] = [31, 51, 61, 64, 99, 128, 147, 195, 243, 253, 255, 381];
    let bits = match r.below(5) {
        0 => *r.pick(&named),
        1 => 2 + r.below(62),
        2 => 48 * (1 + r.below(7)) + r.below(6),
        _ => 20 + r.below(740),
    };
    let n = (bits + 63) / 64;
    let mut l: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let kind = r.below(6);
    let mask = if bits % 64 == 0 { u64::MAX } else { (1 << (bits % 64)) - 1 };
    let what = match kind {
        0 => {
            // just below a power of two
            l.iter_mut().for_each(|x| *x = u64::MAX);
            l[0] = l[0].wrapping_sub(2 * r.below(200) as u64);
            "just below a power of two"
        }
        1 => {
            l.iter_mut().for_each(|x| *x = 0);
            l[0] = 1 + 2 * r.below(200) as u64;
            "just above a power of two"
        }
        2 => {
            // leading bits all ones
            let k = 1 + r.below(60.min(bits));
            for i in 0..k {
                let b = bits - 1 - i;
                l[b / 64] |= 1 << (b % 64);
            }
            "leading ones"
        }
        3 => {
            let k = 1 + r.below(60.min(bits));
            for i in 1..k {
                let b = bits - 1 - i;
                l[b / 64] &= !(1 << (b % 64));
            }
            "leading zeros after the top bit"
        }
        _ => "uniform",
    };
    l[n - 1] &= mask;
    l[(bits - 1) / 64] |= 1 << ((bits - 1) % 64);
    l[0] |= 1;
    if r.chance(1, 4) {
        l.push(0); // more limbs than needed
    }
    (l, what)
}

macro_rules! with_bigint {
    ($l:expr, $p:ident => $e:expr) => {
        match $l.len() {
            1 => with_bigint!(@ 1, $l, $p => $e),
            2 => with_bigint!(@ 2, $l, $p => $e),
            3 => with_bigint!(@ 3, $l, $p => $e),
            4 => with_bigint!(@ 4, $l, $p => $e),
            5 => with_bigint!(@ 5, $l, $p => $e),
            6 => with_bigint!(@ 6, $l, $p => $e),
            7 => with_bigint!(@ 7, $l, $p => $e),
            8 => with_bigint!(@ 8, $l, $p => $e),
            9 => with_bigint!(@ 9, $l, $p => $e),
            10 => with_bigint!(@ 10, $l, $p => $e),
            11 => with_bigint!(@ 11, $l, $p => $e),
            12 => with_bigint!(@ 12, $l, $p => $e),
            _ => with_bigint!(@ 13, $l, $p => $e),
        }
    };
    (@ $n:literal, $l:expr, $p:ident => $e:expr) => {{
        let mut a = [0u64; $n];
        a.copy_from_slice(&$l);
        let $p = BigInt::<$n>(a);
        $e
    }};
}

fn c20(ctx: &Ctx) -> Tally {
    parallel(ctx, |_, r, t| {
        for _ in 0..12 {
            let (l, kind) = modulus(r);
            let (bits, lg) = log2p(&l);
            let v2 = r.chance(1, 3);
            let m = match r.below(4) {
                0 => *r.pick(&[64usize, 80, 96, 100, 112, 128, 160, 192, 224, 256]),
                1 => 1 + r.below(256),
                2 if r.chance(1, 4) => 257 + r.below(300),
                // close to the boundary of the statistical attack, or of the field size
                _ => 128,
            };
            let w = 2 + if r.chance(3, 4) { r.below(11) } else { r.below(30) };
            let e = match r.below(4) {
                0 => *r.pick(&[3u32, 5, 7, 11, 13, 17]),
                1 => 3 + 2 * r.below(64) as u32,
                2 if !v2 => 3 + 2 * (r.u64() % (1 << (2 + r.below(29)))) as u32,
                _ => *r.pick(&[3u32, 5, 17, 19, 101, 127]),
            };
            let a = if !v2 && r.chance(1, 3) { A::Inv } else { A::Pow(e) };
            // aim at the boundary M = (floor(log2 p) - C) (t + 1)
            let m = if r.chance(1, 3) {
                let c = match a {
                    A::Inv => 2.0,
                    A::Pow(e) => ((e - 1) as f64).log2(),
                };
                let x = ((lg.floor() - c) * (w as f64 + 1.0)).floor() + r.below(3) as f64 - 1.0;
                if x >= 1.0 && x <= 256.0 { x as usize } else { m }
            } else {
                m
            };
            let al = alpha_of(a);
            let inv = a == A::Inv;
            let (got, logged) = with_bigint!(l, p => {
                let g = guard(|| {
                    let i = InputParameters::generate(m, w, p, inv);
                    let n = if v2 { paramgen::rounds::v2_generate(&i, &al) } else { paramgen::rounds::v1_generate(&i, &al) };
                    (n, i.log_2_p, i.M == m && i.t == w && i.p == p && i.allow_inverse == inv)
                });
                match g {
                    Ok((n, x, same)) => (Ok((n.full(), n.partial(), same)), x),
                    Err(e) => (Err(e), 0.0),
                }
            });
            let mut want = Vec::new();
            if v2 || m <= 256 {
                for lax in [false, true] {
                    let x = |rf: usize, rp: usize| match a {
                        A::Pow(e) if v2 => groebner_v2_resists(m, w, e, rf, rp, lax),
                        _ => true,
                    };
                    for c in rounds::choices(m, w, lg, a, &x) {
                        if !want.contains(&c) {
                            want.push(c);
                        }
                    }
                }
            }
            let case = || {
                format!("{} M={} t={} S-box {:?}, modulus ({} bits, {}) limbs {:x?}", if v2 { "Poseidon2" } else { "Poseidon" }, m, w, a, bits, kind, l)
            };
            t.eval(hash_str(&case()), true);
            t.count(if v2 { "poseidon2" } else { "poseidon" }, 1);
            t.count(&format!("modulus_{}", kind.replace(' ', "_")), 1);
            t.count(&format!("limbs_{}", l.len()), 1);
            if m > 256 {
                t.count("level_above_256", 1);
            }
            if want.len() > 1 {
                t.count("numerically_ambiguous", 1);
            }
            match got {
                Ok((f, p, same)) => {
                    if !want.contains(&(f, p)) {
                        t.fail(format!("round numbers ({} full, {} partial) instead of {:?} (full, partial)", f, p, want), case());
                    } else if !same {
                        t.fail("the input parameters do not report what they were built from", case());
                    } else {
                        if (logged - lg).abs() > 1e-6 {
                            t.count("logarithm_imprecise", 1);
                        }
                        t.count(&format!("full_rounds_{}", f), 1);
                        t.max("partial_rounds", p as u64);
                        t.sample(|| format!("{} -> ({}, {})", case(), f, p));
                    }
                }
                Err(e) => {
                    if want.is_empty() {
                        t.count("refused", 1);
                    } else {
                        t.fail(format!("panicked ({}) instead of returning {:?} (full, partial)", e, want), case());
                    }
                }
            }
        }
    })
}

// ---------------------------------------------------------------- C21
/// Lengths of the shortest addition chains of the numbers up to `max`, by iterative deepening.
fn chain_lengths(max: usize) -> Vec<usize> {
    let mut len = vec![usize::MAX; max + 1];
    len[1] = 0;
    fn go(chain: &mut Vec<usize>, depth: usize, max: usize, len: &mut Vec<usize>) {
        let last = *chain.last().unwrap();
        let d = chain.len() - 1;
        if d < len[last] {
            len[last] = d;
        }
        if d == depth {
            return;
        }
        for i in (0..chain.len()).rev() {
            for j in (0..=i).rev() {
                let s = chain[i] + chain[j];
                if s > last && s <= max {
                    chain.push(s);
                    go(chain, depth, max, len);
                    chain.pop();
                }
            }
        }
    }
    go(&mut vec![1], 7, max, &mut len);
    len
}
/// Odd exponents in the documented order: by depth 2 to 7, descending within a depth.
fn exponents() -> Vec<u32> {
    let len = chain_lengths(128);
    let mut v = Vec::new();
    for d in 2..=7 {
        for n in (3..=128usize).rev() {
            if n % 2 == 1 && len[n] == d {
                v.push(n as u32);
            }
        }
    }
    v
}
fn rem(l: &[u64], m: u64) -> u64 {
    let mut r = 0u128;
    for x in l.iter().rev() {
        r = ((r << 64) | *x as u128) % m as u128;
    }
    r as u64
}
fn expected_alpha(p: &[u64], order: &[u32], allow: bool) -> Option<Alpha> {
    for e in order {
        let r = (rem(p, *e as u64) + *e as u64 - 1) % *e as u64; // p - 1 mod e
        if rf::big::gcd(r, *e as u64) == 1 {
            return Some(Alpha::Exponent(*e));
        }
    }
    if allow {
        Some(Alpha::Inverse)
    } else {
        None
    }
}
fn c21_field<F: PrimeField>(i: usize, order: &[u32], t: &mut Tally) {
    let p = F::MODULUS;
    for allow in [true, false] {
        let want = expected_alpha(p.as_ref(), order, allow);
        let case = format!("field {} with modulus {}, inverse {}", i, p, if allow { "allowed" } else { "not allowed" });
        t.eval(hash_str(&case), true);
        match guard(|| paramgen::alpha::generate::<F>(p, allow)) {
            Ok(a) => {
                if Some(a) != want {
                    t.fail(format!("chose {:?} instead of {:?}", a, want), case);
                    continue;
                }
                t.count(&format!("{:?}", a), 1);
                if let Alpha::Exponent(e) = a {
                    // the S-box really is a permutation: undo it on a few values
                    let m: BigUint = p.into();
                    let m1 = &m - 1u32;
                    let inv = (0..e as u64).map(|k| &m1 * k + 1u32).find(|x| (x % e) == BigUint::from(0u32)).map(|x| x / e);
                    let inv = inv.expect("coprime");
                    let mut x = F::from(2u64);
                    for _ in 0..4 {
                        if x.pow([e as u64]).pow(inv.to_u64_digits()) != x {
                            t.fail(format!("x^{} is not a permutation", e), case.clone());
                        }
                        x = x * x + F::from(7u64);
                        t.count("sbox_values_undone", 1);
                    }
                }
            }
            Err(e) => {
                if want.is_some() {
                    t.fail(format!("panicked ({}) instead of choosing {:?}", e, want), case);
                } else {
                    t.count("refused", 1);
                }
            }
        }
    }
}
fn c21(ctx: &Ctx) -> Tally {
    let order = exponents();
    parallel(ctx, |c, _, t| {
        macro_rules! one {
            ($i:literal, $f:ty) => {
                if $i == c as usize {
                    c21_field::<$f>($i, &order, t);
                }
            };
        }
        each_field!(one);
    })
}

// ---------------------------------------------------------------- C22
fn small<F: PrimeField>(r: &mut Rng) -> F {
    match r.below(8) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        _ => F::from_le_bytes_mod_order(&(0..128).map(|_| r.u64() as u8).collect::<Vec<_>>()),
    }
}
fn value<F: PrimeField>(x: &F) -> BigUint {
    x.into_bigint().into()
}
fn expected_constants<F: PrimeField>(m: usize, t: usize, rf: usize, rp: usize, a: Alpha, n: usize) -> Vec<BigUint> {
    let mut tr = merlin::Transcript::new(b"round-constants");
    tr.append(b"dom-sep", b"poseidon-paramgen");
    tr.append(b"t", &(t as u64).to_le_bytes());
    tr.append(b"M", &(m as u64).to_le_bytes());
    let p: Vec<u8> = F::MODULUS.as_ref().iter().flat_map(|l| l.to_le_bytes()).collect();
    tr.append(b"p", &p);
    tr.append(b"r_F", &[rf as u8]);
    tr.append(b"r_P", &[rp as u8]);
    let e: [u8; 4] = match a {
        Alpha::Exponent(e) => [e as u8, (e >> 8) as u8, (e >> 16) as u8, (e >> 24) as u8],
        Alpha::Inverse => [0xff; 4],
    };
    tr.append(b"alpha", &e);
    let modulus: BigUint = F::MODULUS.into();
    (0..n)
        .map(|_| {
            let mut b = vec![0u8; (F::MODULUS_BIT_SIZE as usize + 128 + 7) / 8];
            tr.challenge(b"round-constant", &mut b);
            BigUint::from_bytes_le(&b) % &modulus
        })
        .collect()
}
fn sbox<F: PrimeField>(x: F, a: Alpha) -> F {
    match a {
        Alpha::Exponent(e) => x.pow([e as u64]),
        Alpha::Inverse => x.inverse().unwrap_or(F::zero()),
    }
}
fn mul<F: PrimeField>(m: &[F], s: &[F]) -> Vec<F> {
    let t = s.len();
    (0..t).map(|i| (0..t).map(|j| m[i * t + j] * s[j]).sum()).collect()
}
fn c22_field<F: PrimeField>(i: usize, r: &mut Rng, t: &mut Tally) {
    let m = *r.pick(&[80usize, 112, 128, 160, 192, 255, 256, 300, 512, 65664]);
    let w = 2 + r.below(8);
    let rf = 2 * (1 + r.below(6));
    let rp = match r.below(4) {
        0 => 1,
        1 => 2,
        2 => 200 + r.below(56),
        _ => 1 + r.below(60),
    };
    let a = if r.chance(1, 4) { Alpha::Inverse } else { Alpha::Exponent(*r.pick(&[3, 5, 7, 17, 101, 257, 65537, 0x01020305])) };
    let rn = RoundNumbers { r_F: rf, r_P: rp };
    let case = || format!("field {} with modulus {}, M={} t={} {} full and {} partial rounds, S-box {:?}", i, F::MODULUS, m, w, rf, rp, a);
    let input = match guard(|| InputParameters::generate(m, w, F::MODULUS, a == Alpha::Inverse)) {
        Ok(x) => x,
        Err(e) => return t.fail(format!("panicked: {}", e), case()),
    };
    // Poseidon
    let n = (rf + rp) * w;
    let want = expected_constants::<F>(m, w, rf, rp, a, n);
    t.eval(hash_str(&format!("1 {}", case())), true);
    t.count("constants_compared", n as u64);
    let arc = match guard(|| paramgen::round_constants::v1_generate::<F>(&input, rn, a)) {
        Ok(x) => x,
        Err(e) => return t.fail(format!("generating round constants panicked: {}", e), case()),
    };
    if arc.n_rows() != rf + rp || arc.n_cols() != w {
        return t.fail(format!("round constants are {} x {}", arc.n_rows(), arc.n_cols()), case());
    }
    for (k, (g, x)) in arc.elements().iter().zip(&want).enumerate() {
        if value(g) != *x {
            return t.fail(format!("round constant {} of {} is {} instead of {}", k, n, value(g), x), case());
        }
    }
    // Poseidon2
    let n = rf * w + rp;
    t.eval(hash_str(&format!("2 {}", case())), true);
    t.count("constants_compared", n as u64);
    match guard(|| paramgen::round_constants::v2_generate::<F>(&input, rn, a)) {
        Ok(x) => {
            let e = expected_constants::<F>(m, w, rf, rp, a, n);
            if x.elements().len() != n {
                return t.fail(format!("{} Poseidon2 round constants instead of {}", x.elements().len(), n), case());
            }
            for (k, (g, x)) in x.elements().iter().zip(&e).enumerate() {
                if value(g) != *x {
                    return t.fail(format!("Poseidon2 round constant {} of {} is {} instead of {}", k, n, value(g), x), case());
                }
            }
        }
        Err(e) => return t.fail(format!("generating Poseidon2 round constants panicked: {}", e), case()),
    }
    // Optimised constants: same permutation, for the generated constants or others, and any invertible matrix.
    let ((rf, rp), own) = if r.chance(1, 2) && rp < 70 { ((rf, rp), false) } else { ((2 * (1 + r.below(4)), 1 + r.below(12)), true) };
    let rn = RoundNumbers { r_F: rf, r_P: rp };
    let arc = if own { ArcMatrix::new(rf + rp, w, (0..(rf + rp) * w).map(|_| small::<F>(r)).collect()) } else { arc };
    let mds = loop {
        let e: Vec<F> = match r.below(3) {
            0 => {
                // Cauchy
                let d = small::<F>(r);
                let v: Vec<F> = (0..w * w).map(|k| F::from((k / w + k % w) as u64 + 1) + d).collect();
                v.iter().map(|x| x.inverse().unwrap_or(F::one())).collect()
            }
            _ => (0..w * w).map(|_| small::<F>(r)).collect(),
        };
        let q = SquareMatrix::from_vec(e);
        if q.inverse().is_ok() {
            break MdsMatrix(q);
        }
    };
    t.eval(hash_str(&format!("3 {} {:?} {} {}", case(), own, rf, rp)), true);
    let opt = match guard(|| paramgen::round_constants::generate_optimized::<F>(&arc, &mds, &rn)) {
        Ok(x) => x,
        Err(e) => return t.fail(format!("optimising round constants panicked: {}", e), case()),
    };
    let (half, me) = (rf / 2, mds.elements().clone());
    let case = || {
        format!("field {} with modulus {}, t={} {} full and {} partial rounds, S-box {:?}, {} constants", i, F::MODULUS, w, rf, rp, a, if own { "arbitrary" } else { "generated" })
    };
    if opt.n_rows() != rf + rp || opt.n_cols() != w {
        return t.fail(format!("optimised round constants are {} x {}", opt.n_rows(), opt.n_cols()), case());
    }
    let a = match a {
        Alpha::Exponent(_) => Alpha::Exponent(5),
        a => a,
    };
    for q in 0..3 {
        let s: Vec<F> = (0..w).map(|_| if q == 0 { F::zero() } else { small(r) }).collect();
        let mut x = s.clone();
        for k in 0..rf + rp {
            for j in 0..w {
                x[j] += arc.get_element(k, j);
            }
            let full = k < half || k >= half + rp;
            for j in 0..if full { w } else { 1 } {
                x[j] = sbox(x[j], a);
            }
            x = mul(&me, &x);
        }
        let mut y = s.clone();
        for k in 0..half {
            for j in 0..w {
                y[j] = sbox(y[j] + opt.get_element(k, j), a);
            }
            y = mul(&me, &y);
        }
        for j in 0..w {
            y[j] += opt.get_element(half, j);
        }
        for k in 0..rp {
            y[0] = sbox(y[0], a);
            if k + 1 < rp {
                y[0] += opt.get_element(half + k + 1, 0);
            }
            y = mul(&me, &y);
        }
        for k in half + rp..rf + rp {
            for j in 0..w {
                y[j] = sbox(y[j] + opt.get_element(k, j), a);
            }
            y = mul(&me, &y);
        }
        t.count("states_permuted", 1);
        if x != y {
            return t.fail("the optimised round constants give another permutation", case());
        }
    }
    t.sample(case);
}
fn c22(ctx: &Ctx) -> Tally {
    parallel(ctx, |c, r, t| {
        macro_rules! one {
            ($k:literal, $i:literal, $f:ty) => {
                if $k == c as usize % fields::SOME {
                    c22_field::<$f>($i, r, t);
                }
            };
        }
        some_field!(one);
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let check = args.get(1).cloned().unwrap_or_default();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let mut ctx = Ctx {
        seed: num("--seed", 1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        budget: Duration::from_millis(num("--budget-ms", 10_000)),
        threads: num("--threads", 8) as usize,
        pool: Pool::new(Vec::new()),
        start: Instant::now(),
        only_chunk: get("--chunk").and_then(|s| s.parse().ok()),
        max_chunks: get("--max-chunks").and_then(|s| s.parse().ok()),
        min_chunks: num("--min-chunks", 14),
        arg: get("--arg").unwrap_or_default(),
    };
    let t = match check.as_str() {
        "C20" => c20(&ctx),
        "C21" => {
            ctx.min_chunks = fields::N as u64;
            ctx.max_chunks = Some(fields::N as u64);
            c21(&ctx)
        }
        "C22" => {
            ctx.min_chunks = ctx.min_chunks.max(fields::SOME as u64);
            c22(&ctx)
        }
        _ => {
            eprintln!("unknown check {}", check);
            std::process::exit(2);
        }
    };
    if let Some(m) = UNGUARDED.lock().unwrap().clone() {
        eprintln!("harness panicked: {}", m);
        std::process::exit(101);
    }
    let wall = ctx.start.elapsed().as_secs_f64();
    std::fs::write(get("--out").unwrap_or_else(|| "/dev/stdout".into()), to_json(t, wall) + "\n").expect("write result");
}
