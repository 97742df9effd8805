//! A deterministic workload over the whole native public API, without std and without heap. Every result is handed to a
//! recorder, so that executions in different builds, targets and environments can be compared event by event.
#![no_std]
#![allow(non_snake_case)]
#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
pub mod count;
#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
pub mod sys;

use core::cell::Cell;
use poseidon377::*;
use poseidon_parameters::v1::*;

pub const HASH: u32 = 1;
pub const PERM: u32 = 2;
pub const PARAMS: u32 = 4;
pub const MATRIX: u32 = 8;
pub const DESCR: u32 = 16;
pub const GENERAL: u32 = 32;
/// General parameter sets with small exponents only (for interpreters).
pub const SMALL: u32 = 64;
/// Wide states, many rounds, large exponents.
pub const WIDE: u32 = 128;
/// Long histories: thousands of hashes of each rate in one process.
pub const MANY: u32 = 256;

pub const PARTS: [(&str, u32); 9] = [("hash", HASH), ("permutation", PERM), ("parameters", PARAMS), ("matrix", MATRIX), ("descriptors", DESCR), ("general", GENERAL), ("small", SMALL), ("wide", WIDE), ("many", MANY)];

pub trait Rec {
    /// An operation of the code under test begins (end: is over).
    fn begin(&self, op: &'static str);
    fn end(&self);
    /// A result.
    fn bytes(&self, b: &[u8]);
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        (self.u64() >> 33) as u32 % n
    }
    /// A field element: uniform below 2^248 or its negative, small or minus small, one byte or limb set, zero.
    pub fn word(&mut self) -> Fq {
        let mut b = [0u8; 32];
        match self.below(8) {
            0 => b[0] = self.below(4) as u8,
            1 => b[self.below(31) as usize] = 1 << self.below(8),
            2 => {
                let k = self.below(31) as usize;
                for x in b[..=k].iter_mut() {
                    *x = 0xff;
                }
            }
            3 => {
                let l = self.u64().to_le_bytes();
                let k = 8 * self.below(3) as usize;
                b[k..k + 8].copy_from_slice(&l);
            }
            _ => {
                for k in 0..4 {
                    let l = self.u64().to_le_bytes();
                    b[8 * k..8 * k + 8].copy_from_slice(&l);
                }
                b[31] = 0;
            }
        }
        let x = match Fq::from_bytes_checked(&b) {
            Ok(x) => x,
            Err(_) => panic!("harness: canonical encoding rejected"),
        };
        if self.below(3) == 0 {
            -x
        } else {
            x
        }
    }
    pub fn words<const N: usize>(&mut self) -> [Fq; N] {
        let mut o = [Fq::from(0u64); N];
        for x in o.iter_mut() {
            *x = self.word();
        }
        o
    }
}

fn elems<R: Rec>(r: &R, v: &[Fq]) {
    for x in v {
        r.bytes(&x.to_bytes());
    }
}

macro_rules! op {
    ($r:expr, $n:expr, $e:expr) => {{
        $r.begin($n);
        let v = $e;
        $r.end();
        v
    }};
}

macro_rules! rate {
    ($r:expr, $g:expr, $what:expr, $n:expr, $t:literal, $p:ident, $h:ident, |$w:ident| $args:expr) => {{
        let t0: usize = $t;
        if $what & HASH != 0 {
            for _ in 0..$n {
                let $w: [Fq; $t] = $g.words();
                let x = op!($r, stringify!($h), $h(&$w[0], $args));
                elems($r, &[x]);
            }
        }
        if $what & PERM != 0 {
            let params = op!($r, "parameter clone", $p.clone());
            let mut inst = op!($r, "Instance::new", Instance::new(&params));
            elems($r, &op!($r, "output_words", inst.output_words()));
            for _ in 0..$n {
                let w: [Fq; $t] = $g.words();
                let x = op!($r, "n_to_1_fixed_hash", inst.n_to_1_fixed_hash(&w));
                elems($r, &[x]);
                elems($r, &op!($r, "output_words", inst.output_words()));
                let w: [Fq; $t] = $g.words();
                let x = op!($r, "unoptimized_n_to_1_fixed_hash", inst.unoptimized_n_to_1_fixed_hash(w));
                elems($r, &[x]);
                elems($r, &op!($r, "output_words", inst.output_words()));
            }
        }
        if $what & PARAMS != 0 {
            let p = op!($r, "parameter constant", $p);
            $r.bytes(&(p.M as u64).to_le_bytes());
            $r.bytes(&p.alpha.to_bytes_le());
            $r.bytes(&(p.rounds.full() as u64).to_le_bytes());
            $r.bytes(&(p.rounds.partial() as u64).to_le_bytes());
            $r.bytes(&(p.rounds.total() as u64).to_le_bytes());
            $r.bytes(&f64::from(p.alpha).to_le_bytes());
            elems($r, p.mds.elements());
            elems($r, p.arc.elements());
            elems($r, &p.arc.inner_elements());
            elems($r, p.optimized_arc.elements());
            let o = &p.optimized_mds;
            elems($r, o.M_hat.elements());
            elems($r, o.v.elements());
            elems($r, o.w.elements());
            elems($r, o.M_prime.elements());
            elems($r, o.M_doubleprime.elements());
            elems($r, o.M_inverse.elements());
            elems($r, o.M_hat_inverse.elements());
            elems($r, &[o.M_00]);
            elems($r, o.M_i.elements());
            for v in o.v_collection.iter() {
                elems($r, v.elements());
            }
            for v in o.w_hat_collection.iter() {
                elems($r, v.elements());
            }
            elems($r, op!($r, "MdsMatrix::v", p.mds.v()).elements());
            elems($r, op!($r, "MdsMatrix::w", p.mds.w()).elements());
            elems($r, op!($r, "MdsMatrix::hat", p.mds.hat()).elements());
            elems($r, op!($r, "transpose", p.arc.transpose()).elements());
            elems($r, op!($r, "transpose", p.optimized_arc.transpose()).elements());
            elems($r, op!($r, "transpose", p.mds.transpose()).elements());
            elems($r, op!($r, "row_vector", p.mds.0.row_vector(t0 - 1)).elements());
            elems($r, op!($r, "row_vector", p.arc.0.row_vector(38)).elements());
            let q = op!($r, "parameter clone", p.clone());
            $r.bytes(&[(q.mds == p.mds && q.arc == p.arc && q.optimized_arc == p.optimized_arc && q.optimized_mds == p.optimized_mds) as u8]);
        }
    }};
}

fn square<R: Rec, const N: usize, const E: usize, const N1: usize, const E1: usize>(r: &R, g: &mut Rng, inverse: bool) {
    let a: [Fq; E] = g.words();
    let mut b: [Fq; E] = g.words();
    if g.below(4) == 0 && N > 1 {
        // two proportional rows: singular
        let k = g.word();
        for j in 0..N {
            b[j] = b[N + j] * k;
        }
    }
    let (k, i, j) = (g.word(), g.below(N as u32) as usize, g.below(N as u32) as usize);
    square_ops::<R, N, E, N1, E1>(r, &a, b, k, i, j, inverse);
}

fn square_ops<R: Rec, const N: usize, const E: usize, const N1: usize, const E1: usize>(r: &R, a: &[Fq; E], b: [Fq; E], k: Fq, i: usize, j: usize, inverse: bool) {
    let mut ma = op!(r, "SquareMatrix::new", SquareMatrix::<N, E>::new(a));
    let mb = op!(r, "SquareMatrix::new_from_known", SquareMatrix::<N, E>::new_from_known(b));
    elems(r, &[op!(r, "determinant", ma.determinant()), op!(r, "determinant", mb.determinant())]);
    elems(r, op!(r, "transpose", ma.transpose()).elements());
    elems(r, op!(r, "square_mat_mul", square_mat_mul::<N, E, N, E, E>(&ma, &mb)).elements());
    elems(r, op!(r, "mat_mul", mat_mul::<N, N, E, N, N, E, E>(&ma.0, &mb.0)).elements());
    match op!(r, "hadamard_product", ma.hadamard_product(&mb)) {
        Ok(m) => elems(r, m.elements()),
        Err(_) => r.bytes(b"error"),
    }
    elems(r, op!(r, "scalar product", mb.clone() * k).elements());
    elems(r, op!(r, "scalar product", mb.0.clone() * k).elements());
    elems(r, op!(r, "identity", SquareMatrix::<N, E>::identity()).elements());
    elems(r, op!(r, "minors", ma.minors()).elements());
    elems(r, op!(r, "cofactors", ma.cofactors()).elements());
    if inverse {
        for m in [&ma, &mb] {
            match op!(r, "inverse", m.inverse()) {
                Ok(i) => elems(r, i.elements()),
                Err(e) => {
                    // the message, without a formatter of our own
                    struct W<'a, R: Rec>(&'a R);
                    impl<'a, R: Rec> core::fmt::Write for W<'a, R> {
                        fn write_str(&mut self, s: &str) -> core::fmt::Result {
                            self.0.bytes(s.as_bytes());
                            Ok(())
                        }
                    }
                    let _ = core::fmt::write(&mut W(r), format_args!("{}", e));
                }
            }
        }
    }
    op!(r, "set_element", ma.set_element(i, j, k));
    elems(r, &[op!(r, "get_element", ma.get_element(i, j))]);
    for row in ma.iter_rows() {
        elems(r, row);
    }
    elems(r, op!(r, "row_vector", ma.row_vector(i)).elements());
    r.bytes(&[(ma == mb) as u8, ma.n_rows() as u8, ma.n_cols() as u8]);
    if N > 1 {
        let m = op!(r, "MdsMatrix::new", MdsMatrix::<N, N1, E, E1>::new(a));
        elems(r, op!(r, "MdsMatrix::v", m.v()).elements());
        elems(r, op!(r, "MdsMatrix::w", m.w()).elements());
        elems(r, op!(r, "MdsMatrix::hat", m.hat()).elements());
        elems(r, op!(r, "MdsMatrix::from_elements", MdsMatrix::<N, N1, E, E1>::from_elements(a)).elements());
        if inverse && ma.determinant() != Fq::from(0u64) && m.0.determinant() != Fq::from(0u64) {
            elems(r, op!(r, "MdsMatrix::inverse", m.inverse()).elements());
        }
    }
}

fn rect<R: Rec, const A: usize, const B: usize, const AB: usize, const C: usize, const BC: usize, const AC: usize>(r: &R, g: &mut Rng) {
    let mut x = op!(r, "Matrix::new", Matrix::<A, B, AB>::new(&g.words::<AB>()));
    let y = op!(r, "Matrix::new_from_known", Matrix::<B, C, BC>::new_from_known(g.words()));
    elems(r, op!(r, "mat_mul", mat_mul::<A, B, AB, B, C, BC, AC>(&x, &y)).elements());
    elems(r, op!(r, "transpose", x.transpose()).elements());
    let k = g.word();
    elems(r, op!(r, "scalar product", x.clone() * k).elements());
    op!(r, "set_element", x.set_element(A - 1, B - 1, k));
    elems(r, op!(r, "row_vector", x.row_vector(A - 1)).elements());
    let arc = op!(r, "ArcMatrix::new", ArcMatrix::<A, B, AB>::new(x.elements()));
    let o = op!(r, "OptimizedArcMatrix::new", OptimizedArcMatrix::<A, B, AB>::new(arc.elements()));
    elems(r, op!(r, "transpose", o.transpose()).elements());
    match op!(r, "hadamard_product", arc.hadamard_product(&o.0)) {
        Ok(m) => elems(r, m.elements()),
        Err(_) => r.bytes(b"error"),
    }
    r.bytes(&[x.n_rows() as u8, x.n_cols() as u8, arc.n_rows() as u8, o.n_cols() as u8]);
}

/// A small permutation with parameters of its own, the S-box given.
fn general<R: Rec>(r: &R, g: &mut Rng, alpha: Alpha) {
    // width 2, Cauchy-like matrix; r_F = 2, r_P = 1
    let one = Fq::from(1u64);
    let (mut m, mut d);
    loop {
        m = [g.word(), g.word(), g.word(), g.word()];
        d = m[0] * m[3] - m[1] * m[2];
        if d != Fq::from(0u64) && m[3] != Fq::from(0u64) {
            break;
        }
    }
    let mds = MdsMatrix::<2, 1, 4, 1>::new(&m);
    let mut arc: [Fq; 6] = g.words();
    let zero = Fq::from(0u64);
    // constants for which the first states below have special words before S-boxes
    let first: [Fq; 2] = g.words();
    let special = |g: &mut Rng| match g.below(4) {
        0 | 1 => zero,
        2 => one,
        _ => -one,
    };
    let sbox = |x: Fq| match alpha {
        Alpha::Exponent(e) => x.power([e as u64]),
        Alpha::Inverse => x.inverse().unwrap_or(zero),
    };
    let mix = |x: [Fq; 2]| [m[0] * x[0] + m[1] * x[1], m[2] * x[0] + m[3] * x[1]];
    if g.below(2) == 0 {
        let k = g.below(2) as usize;
        arc[k] = special(g) - first[k];
    }
    let x = mix([sbox(first[0] + arc[0]), sbox(first[1] + arc[1])]);
    if g.below(4) != 0 {
        arc[2] = special(g) - x[0];
    }
    let x = mix([sbox(x[0] + arc[2]), x[1] + arc[3]]);
    if g.below(2) == 0 {
        let k = g.below(2) as usize;
        arc[4 + k] = special(g) - x[k];
    }
    let p = PoseidonParameters::<2, 1, 4, 1, 3, 2, 6, 1> {
        M: 80,
        alpha,
        rounds: RoundNumbers { r_P: 1, r_F: 2 },
        arc: ArcMatrix::new(&arc),
        // these only have to be present for the unoptimised path
        optimized_arc: OptimizedArcMatrix::new(&arc),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: mds.hat(),
            v: mds.v(),
            w: mds.w(),
            M_prime: SquareMatrix::new(&[one, zero, zero, m[3]]),
            M_doubleprime: SquareMatrix::identity(),
            M_inverse: mds.inverse(),
            M_hat_inverse: SquareMatrix::identity(),
            M_00: m[0],
            M_i: Matrix::new(&[one, zero, zero, m[3]]),
            v_collection: [mds.v()],
            w_hat_collection: [mds.w()],
        },
        mds,
    };
    let mut i = op!(r, "Instance::new", Instance::new(&p));
    for k in 0..2 {
        let w: [Fq; 2] = if k == 0 { first } else { g.words() };
        let x = op!(r, "unoptimized_n_to_1_fixed_hash", i.unoptimized_n_to_1_fixed_hash(w));
        let y = op!(r, "output_words", i.output_words());
        elems(r, &[x, y[0], y[1]]);
        let x = op!(r, "n_to_1_fixed_hash", i.n_to_1_fixed_hash(&w));
        let y = op!(r, "output_words", i.output_words());
        elems(r, &[x, y[0], y[1]]);
    }
}

/// A parameter set of any shape whose matrix has the identity as its trailing submatrix, so that the equivalent matrices are known
/// and the inverse, needed for the equivalent constants, is too.
fn wide<R: Rec, const T: usize, const T1: usize, const TT: usize, const T1T1: usize, const ROWS: usize, const E: usize, const RP: usize>(r: &R, g: &mut Rng, alpha: Alpha) {
    let (zero, one) = (Fq::from(0u64), Fq::from(1u64));
    let v: [Fq; T1] = g.words();
    let w: [Fq; T1] = g.words();
    let vw: Fq = v.iter().zip(&w).map(|(x, y)| *x * *y).sum();
    let mut m00 = g.word();
    if m00 == vw {
        m00 += one;
    }
    // of the inverse: its first entry
    let s = (m00 - vw).inverse().unwrap_or(one);
    let mut m = [zero; TT];
    let mut hat = [zero; T1T1];
    m[0] = m00;
    for i in 0..T1 {
        m[1 + i] = v[i];
        m[(1 + i) * T] = w[i];
        m[(1 + i) * T + 1 + i] = one;
        hat[i * T1 + i] = one;
    }
    let mut id = [zero; TT];
    for i in 0..T {
        id[i * T + i] = one;
    }
    let mut sparse = m;
    for i in 0..T1 {
        for j in 0..T1 {
            sparse[(1 + i) * T + 1 + j] = id[(1 + i) * T + 1 + j];
        }
    }
    let inv = |x: &[Fq; T]| {
        let mut y = [zero; T];
        let d: Fq = v.iter().zip(&x[1..]).map(|(a, b)| *a * *b).sum();
        y[0] = s * (x[0] - d);
        for i in 0..T1 {
            y[1 + i] = x[1 + i] - w[i] * y[0];
        }
        y
    };
    let mut minv = [zero; TT];
    for j in 0..T {
        let mut e = [zero; T];
        e[j] = one;
        let y = inv(&e);
        for i in 0..T {
            minv[i * T + j] = y[i];
        }
    }
    let arc: [Fq; E] = g.words();
    let mut opt = arc;
    let rf = (ROWS - RP) / 2;
    for k in (rf..ROWS - 1 - rf).rev() {
        let mut x = [zero; T];
        x.copy_from_slice(&opt[(k + 1) * T..(k + 2) * T]);
        let y = inv(&x);
        for i in 1..T {
            opt[k * T + i] += y[i];
            opt[(k + 1) * T + i] = zero;
        }
        opt[(k + 1) * T] = y[0];
    }
    let mv = Matrix::<1, T1, T1>::new(&v);
    let mw = Matrix::<T1, 1, T1>::new(&w);
    let p = PoseidonParameters::<T, T1, TT, T1T1, ROWS, T, E, RP> {
        M: 128,
        alpha,
        rounds: RoundNumbers { r_P: RP, r_F: ROWS - RP },
        mds: MdsMatrix::new(&m),
        arc: ArcMatrix::new(&arc),
        optimized_arc: OptimizedArcMatrix::new(&opt),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix::new(&hat),
            v: mv.clone(),
            w: mw.clone(),
            M_prime: SquareMatrix::new(&id),
            M_doubleprime: SquareMatrix::new(&sparse),
            M_inverse: SquareMatrix::new(&minv),
            M_hat_inverse: SquareMatrix::new(&hat),
            M_00: m00,
            M_i: Matrix::new(&id),
            // (the sparse products work with the transposed matrix)
            v_collection: core::array::from_fn(|_| Matrix::new(&w)),
            w_hat_collection: core::array::from_fn(|_| Matrix::new(&v)),
        },
    };
    let mut i = op!(r, "Instance::new", Instance::new(&p));
    for _ in 0..2 {
        let x: [Fq; T] = g.words();
        let a = op!(r, "unoptimized_n_to_1_fixed_hash", i.unoptimized_n_to_1_fixed_hash(x));
        let y = op!(r, "output_words", i.output_words());
        elems(r, &[a]);
        elems(r, &y);
        let b = op!(r, "n_to_1_fixed_hash", i.n_to_1_fixed_hash(&x));
        let z = op!(r, "output_words", i.output_words());
        elems(r, &[b]);
        elems(r, &z);
        // both paths agree
        r.bytes(&[(a == b && y == z) as u8]);
    }
    elems(r, op!(r, "transpose", p.arc.transpose()).elements());
    elems(r, op!(r, "transpose", p.mds.transpose()).elements());
    elems(r, op!(r, "MdsMatrix::v", p.mds.v()).elements());
    elems(r, op!(r, "MdsMatrix::w", p.mds.w()).elements());
    elems(r, op!(r, "MdsMatrix::hat", p.mds.hat()).elements());
    elems(r, op!(r, "row_vector", p.mds.0.row_vector(T - 1)).elements());
    elems(r, op!(r, "square_mat_mul", square_mat_mul::<T, TT, T, TT, TT>(&p.mds.0, &p.optimized_mds.M_inverse)).elements());
}

fn descr<R: Rec>(r: &R, g: &mut Rng) {
    let e = match g.below(3) {
        0 => g.below(300),
        1 => g.u64() as u32,
        _ => 1u32 << g.below(32),
    };
    let a = Alpha::Exponent(e);
    r.bytes(&op!(r, "Alpha::to_bytes_le", a.to_bytes_le()));
    r.bytes(&op!(r, "f64::from(Alpha)", f64::from(a)).to_bits().to_le_bytes());
    r.bytes(&op!(r, "Alpha::to_bytes_le", Alpha::Inverse.to_bytes_le()));
    r.bytes(&op!(r, "f64::from(Alpha)", f64::from(Alpha::Inverse)).to_bits().to_le_bytes());
    r.bytes(&[(a == Alpha::Inverse) as u8, (a == Alpha::Exponent(e ^ 1)) as u8]);
    let mut n = RoundNumbers { r_P: g.below(1 << 16) as usize, r_F: g.below(1 << 16) as usize };
    for _ in 0..3 {
        *op!(r, "full_mut", n.full_mut()) += 3;
        *op!(r, "partial_mut", n.partial_mut()) += 1;
        r.bytes(&(op!(r, "total", n.total()) as u64).to_le_bytes());
        r.bytes(&(op!(r, "full", n.full()) as u64).to_le_bytes());
        r.bytes(&(op!(r, "partial", n.partial()) as u64).to_le_bytes());
    }
}

/// Run the parts of the workload selected by `what`, rates up to `rates`, square matrices up to size `dim`.
pub fn run<R: Rec>(r: &R, seed: u64, what: u32, n: u32, rates: u32, dim: u32) {
    let mut gen = Rng::new(seed);
    let g = &mut gen;
    rate!(r, g, what, n, 2, RATE_1_PARAMS, hash_1, |w| w[1]);
    if rates >= 2 {
        rate!(r, g, what, n, 3, RATE_2_PARAMS, hash_2, |w| (w[1], w[2]));
    }
    if rates >= 3 {
        rate!(r, g, what, n, 4, RATE_3_PARAMS, hash_3, |w| (w[1], w[2], w[3]));
    }
    if rates >= 4 {
        rate!(r, g, what, n, 5, RATE_4_PARAMS, hash_4, |w| (w[1], w[2], w[3], w[4]));
    }
    if rates >= 5 {
        rate!(r, g, what, n, 6, RATE_5_PARAMS, hash_5, |w| (w[1], w[2], w[3], w[4], w[5]));
    }
    if rates >= 6 {
        rate!(r, g, what, n, 7, RATE_6_PARAMS, hash_6, |w| (w[1], w[2], w[3], w[4], w[5], w[6]));
    }
    if rates >= 7 {
        rate!(r, g, what, n, 8, RATE_7_PARAMS, hash_7, |w| (w[1], w[2], w[3], w[4], w[5], w[6], w[7]));
    }
    if what & MATRIX != 0 {
        for _ in 0..n {
            square::<R, 1, 1, 0, 0>(r, g, true);
            square::<R, 2, 4, 1, 1>(r, g, true);
            if dim >= 3 {
                square::<R, 3, 9, 2, 4>(r, g, true);
            }
            if dim >= 4 {
                square::<R, 4, 16, 3, 9>(r, g, true);
            }
            if dim >= 5 {
                square::<R, 5, 25, 4, 16>(r, g, true);
            }
            if dim >= 6 {
                square::<R, 6, 36, 5, 25>(r, g, true);
            }
            rect::<R, 1, 3, 3, 2, 6, 2>(r, g);
            rect::<R, 4, 2, 8, 5, 10, 20>(r, g);
            rect::<R, 3, 1, 3, 1, 1, 3>(r, g);
            rect::<R, 2, 7, 14, 1, 7, 2>(r, g);
        }
    }
    if what & GENERAL != 0 {
        for _ in 0..n {
            for a in [Alpha::Exponent(1), Alpha::Exponent(3), Alpha::Exponent(5), Alpha::Exponent(17), Alpha::Exponent(300), Alpha::Inverse] {
                general(r, g, a);
            }
        }
    }
    if what & SMALL != 0 {
        for _ in 0..n {
            for a in [Alpha::Exponent(2), Alpha::Exponent(3)] {
                general(r, g, a);
            }
        }
    }
    if what & WIDE != 0 {
        let e = |g: &mut Rng| match g.below(6) {
            0 => Alpha::Exponent(1),
            1 => Alpha::Exponent(3),
            2 => Alpha::Exponent(11),
            3 => Alpha::Exponent(257),
            4 => Alpha::Inverse,
            _ => Alpha::Exponent(17),
        };
        general(r, g, Alpha::Exponent(65539));
        let a = e(g);
        wide::<R, 3, 2, 9, 4, 65, 195, 57>(r, g, a);
        let a = e(g);
        wide::<R, 9, 8, 81, 64, 7, 63, 3>(r, g, a);
        let a = e(g);
        wide::<R, 17, 16, 289, 256, 6, 102, 2>(r, g, a);
        let a = e(g);
        wide::<R, 2, 1, 4, 1, 262, 524, 260>(r, g, a);
        let a = e(g);
        wide::<R, 33, 32, 1089, 1024, 5, 165, 1>(r, g, a);
    }
    if what & MANY != 0 {
        let mut x = g.words::<8>();
        let favourite = g.below(7);
        for k in 0..7 {
            let long = if k == favourite { 16400 } else { 1100 } * n;
            for _ in 0..long {
                x[1] = match k {
                    0 => op!(r, "hash_1", hash_1(&x[0], x[1])),
                    1 => op!(r, "hash_2", hash_2(&x[0], (x[1], x[2]))),
                    2 => op!(r, "hash_3", hash_3(&x[0], (x[1], x[2], x[3]))),
                    3 => op!(r, "hash_4", hash_4(&x[0], (x[1], x[2], x[3], x[4]))),
                    4 => op!(r, "hash_5", hash_5(&x[0], (x[1], x[2], x[3], x[4], x[5]))),
                    5 => op!(r, "hash_6", hash_6(&x[0], (x[1], x[2], x[3], x[4], x[5], x[6]))),
                    _ => op!(r, "hash_7", hash_7(&x[0], (x[1], x[2], x[3], x[4], x[5], x[6], x[7]))),
                };
                elems(r, &x[1..2]);
            }
        }
    }
    if what & DESCR != 0 {
        for _ in 0..4 * n {
            descr(r, g);
        }
    }
}

/// Operations on states and matrices read from a stream of records: a byte 1..=7 and rate+1 words, or a byte 16+n and two n x n matrices.
/// `fill` fills a buffer or says that the input is over; `done` is told after every record. A word that is not canonical ends the stream.
pub fn stream<R: Rec>(r: &R, fill: &mut dyn FnMut(&mut [u8]) -> bool, done: &mut dyn FnMut(u32)) {
    fn words<const N: usize>(fill: &mut dyn FnMut(&mut [u8]) -> bool) -> Option<[Fq; N]> {
        let mut o = [Fq::from(0u64); N];
        for x in o.iter_mut() {
            let mut b = [0u8; 32];
            if !fill(&mut b) {
                return None;
            }
            *x = match Fq::from_bytes_checked(&b) {
                Ok(x) => x,
                Err(_) => return None,
            };
        }
        Some(o)
    }
    fn one<R: Rec, const N: usize, const N1: usize, const E: usize, const E1: usize, const RR: usize, const PR: usize, const AR: usize, const F: usize>(
        r: &R,
        p: &PoseidonParameters<N, N1, E, E1, RR, PR, AR, F>,
        w: [Fq; N],
        h: Fq,
    ) {
        let mut i = op!(r, "Instance::new", Instance::new(p));
        let a = op!(r, "n_to_1_fixed_hash", i.n_to_1_fixed_hash(&w));
        let o = op!(r, "output_words", i.output_words());
        elems(r, &[h, a]);
        elems(r, &o);
        let b = op!(r, "unoptimized_n_to_1_fixed_hash", i.unoptimized_n_to_1_fixed_hash(w));
        let o = op!(r, "output_words", i.output_words());
        elems(r, &[b]);
        elems(r, &o);
    }
    macro_rules! rec {
        ($p:ident, $h:ident, |$w:ident| $args:expr) => {{
            let $w = match words(fill) {
                Some(w) => w,
                None => return,
            };
            let h = op!(r, stringify!($h), $h(&$w[0], $args));
            one(r, &$p, $w, h);
        }};
    }
    macro_rules! mat {
        ($n:literal, $e:literal, $n1:literal, $e1:literal) => {{
            match (words::<$e>(fill), words::<$e>(fill)) {
                (Some(a), Some(b)) => square_ops::<R, $n, $e, $n1, $e1>(r, &a, b, a[0], 0, $n - 1, true),
                _ => return,
            }
        }};
    }
    let mut k = 0;
    loop {
        let mut t = [0u8];
        if !fill(&mut t) {
            return;
        }
        match t[0] {
            1 => rec!(RATE_1_PARAMS, hash_1, |w| w[1]),
            2 => rec!(RATE_2_PARAMS, hash_2, |w| (w[1], w[2])),
            3 => rec!(RATE_3_PARAMS, hash_3, |w| (w[1], w[2], w[3])),
            4 => rec!(RATE_4_PARAMS, hash_4, |w| (w[1], w[2], w[3], w[4])),
            5 => rec!(RATE_5_PARAMS, hash_5, |w| (w[1], w[2], w[3], w[4], w[5])),
            6 => rec!(RATE_6_PARAMS, hash_6, |w| (w[1], w[2], w[3], w[4], w[5], w[6])),
            7 => rec!(RATE_7_PARAMS, hash_7, |w| (w[1], w[2], w[3], w[4], w[5], w[6], w[7])),
            17 => mat!(1, 1, 0, 0),
            18 => mat!(2, 4, 1, 1),
            19 => mat!(3, 9, 2, 4),
            20 => mat!(4, 16, 3, 9),
            21 => mat!(5, 25, 4, 16),
            _ => return,
        }
        done(k);
        k += 1;
    }
}

/// Prints one line per record: "r <index> <digest>"; the digest covers that record only.
pub fn stream_report(fill: &mut dyn FnMut(&mut [u8]) -> bool, out: &mut dyn core::fmt::Write) {
    let d = Digest::new();
    let start = d.h.get();
    stream(&d, fill, &mut |k| {
        let _ = writeln!(out, "r {} {:016x}", k, d.h.get()[0] ^ d.h.get()[1].rotate_left(32));
        d.h.set(start);
    });
}

/// A recorder that keeps a running 128-bit digest (FNV-like, position dependent) and counts.
pub struct Digest {
    pub h: Cell<[u64; 2]>,
    pub events: Cell<u64>,
    pub ops: Cell<u64>,
}
impl Digest {
    pub fn new() -> Digest {
        Digest { h: Cell::new([0xcbf29ce484222325, 0x6c62272e07bb0142]), events: Cell::new(0), ops: Cell::new(0) }
    }
}
impl Rec for Digest {
    fn begin(&self, _op: &'static str) {
        self.ops.set(self.ops.get() + 1);
    }
    fn end(&self) {}
    fn bytes(&self, b: &[u8]) {
        self.events.set(self.events.get() + 1);
        let mut h = self.h.get();
        for x in b {
            h[0] = (h[0] ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(9);
            h[1] = (h[1] ^ *x as u64 ^ h[0]).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
        }
        self.h.set(h);
    }
}

/// One line per part: "<part> <digest> <events> <ops>"; `out` receives the text.
pub fn report(seed: u64, n: u32, rates: u32, dim: u32, what: u32, reps: u32, out: &mut dyn core::fmt::Write) {
    for k in 0..reps {
        for (name, bit) in PARTS {
            if what & bit == 0 || (k > 0 && matches!(bit, PARAMS | MANY)) {
                continue;
            }
            let d = Digest::new();
            run(&d, seed.wrapping_add(k as u64 * 1000), bit, n, rates, dim);
            let _ = writeln!(out, "{} {} {:016x}{:016x} {} {}", name, k, d.h.get()[0], d.h.get()[1], d.events.get(), d.ops.get());
        }
    }
}
