//! Dynamic views of the statically shaped types under test.
use crate::gen::Rng;
use crate::bridge::{fe, fev, fq, fqs, Fq};
use crate::rf::Fe;
use crate::spec::{Base, Mat, Opt, Sbox};
use poseidon_parameters::v1::{
    Alpha, ArcMatrix, Matrix, MatrixOperations, MdsMatrix, OptimizedArcMatrix, OptimizedMdsMatrices, PoseidonParameters, RoundNumbers, SquareMatrix,
};
use poseidon_permutation::Instance;

pub trait Inst {
    fn opt(&mut self, input: &[Fq]) -> Fq;
    fn unopt(&mut self, input: &[Fq]) -> Fq;
    fn words(&self) -> Vec<Fq>;
}
impl<'a, const T: usize, const T1: usize, const E: usize, const E1: usize, const NR: usize, const NC: usize, const NE: usize, const NP: usize> Inst
    for Instance<'a, T, T1, E, E1, NR, NC, NE, NP>
{
    fn opt(&mut self, input: &[Fq]) -> Fq {
        let a: [Fq; T] = input.try_into().expect("harness: width");
        self.n_to_1_fixed_hash(&a)
    }
    fn unopt(&mut self, input: &[Fq]) -> Fq {
        let a: [Fq; T] = input.try_into().expect("harness: width");
        self.unoptimized_n_to_1_fixed_hash(a)
    }
    fn words(&self) -> Vec<Fq> {
        self.output_words().to_vec()
    }
}

pub trait Params {
    fn inst<'a>(&'a self) -> Box<dyn Inst + 'a>;
    fn dup(&self) -> Box<dyn Params>;
    fn base(&self) -> Base;
    fn opt(&self) -> Opt;
    fn level(&self) -> usize;
    fn t(&self) -> usize;
    #[cfg(feature = "gadgets")]
    fn gadget(&self, cs: ark_relations::r1cs::ConstraintSystemRef<Fq>, input: Vec<ark_r1cs_std::fields::fp::FpVar<Fq>>) -> ark_r1cs_std::fields::fp::FpVar<Fq>;
    #[cfg(feature = "gadgets")]
    fn gadget_state(&self, cs: ark_relations::r1cs::ConstraintSystemRef<Fq>, input: Vec<ark_r1cs_std::fields::fp::FpVar<Fq>>) -> Option<Vec<ark_r1cs_std::fields::fp::FpVar<Fq>>>;
}
pub fn mat<M: MatrixOperations>(m: &M) -> Mat {
    Mat::new(m.n_rows(), m.n_cols(), fev(m.elements()))
}
pub fn sbox_of(a: Alpha) -> Sbox {
    match a {
        Alpha::Exponent(e) => Sbox::Pow(e),
        Alpha::Inverse => Sbox::Inv,
    }
}
pub fn alpha_of(s: Sbox) -> Alpha {
    match s {
        Sbox::Pow(e) => Alpha::Exponent(e),
        Sbox::Inv => Alpha::Inverse,
    }
}
impl<const T: usize, const T1: usize, const E: usize, const E1: usize, const NR: usize, const NC: usize, const NE: usize, const NP: usize> Params
    for PoseidonParameters<T, T1, E, E1, NR, NC, NE, NP>
{
    fn inst<'a>(&'a self) -> Box<dyn Inst + 'a> {
        Box::new(Instance::new(self))
    }
    fn dup(&self) -> Box<dyn Params> {
        Box::new(self.clone())
    }
    fn base(&self) -> Base {
        Base {
            t: T,
            rf: self.rounds.full(),
            rp: self.rounds.partial(),
            sbox: sbox_of(self.alpha),
            mds: mat(&self.mds),
            arc: mat(&self.arc),
        }
    }
    fn opt(&self) -> Opt {
        let o = &self.optimized_mds;
        Opt {
            m_hat: mat(&o.M_hat),
            m_hat_inv: mat(&o.M_hat_inverse),
            v: mat(&o.v),
            w: mat(&o.w),
            m_prime: mat(&o.M_prime),
            m_doubleprime: mat(&o.M_doubleprime),
            m_inv: mat(&o.M_inverse),
            m00: fe(&o.M_00),
            m_i: mat(&o.M_i),
            v_coll: o.v_collection.iter().map(|m| fev(m.elements())).collect(),
            w_hat_coll: o.w_hat_collection.iter().map(|m| fev(m.elements())).collect(),
            arc: mat(&self.optimized_arc),
        }
    }
    fn level(&self) -> usize {
        self.M
    }
    fn t(&self) -> usize {
        T
    }
    #[cfg(feature = "gadgets")]
    fn gadget(&self, cs: ark_relations::r1cs::ConstraintSystemRef<Fq>, input: Vec<ark_r1cs_std::fields::fp::FpVar<Fq>>) -> ark_r1cs_std::fields::fp::FpVar<Fq> {
        let a: [ark_r1cs_std::fields::fp::FpVar<Fq>; T] = input.try_into().ok().expect("harness: width");
        poseidon_permutation::r1cs::InstanceVar::n_to_1_fixed_hash(self.clone(), cs, a)
    }
    #[cfg(feature = "gadgets")]
    fn gadget_state(&self, cs: ark_relations::r1cs::ConstraintSystemRef<Fq>, input: Vec<ark_r1cs_std::fields::fp::FpVar<Fq>>) -> Option<Vec<ark_r1cs_std::fields::fp::FpVar<Fq>>> {
        #[cfg(feature = "few")]
        {
            let _ = (cs, input);
            return None;
        }
        #[cfg(not(feature = "few"))]
        {
            let mut i = poseidon_permutation::r1cs::InstanceVar { parameters: self.clone(), cs, state_words: input };
            i.permute();
            Some(i.state_words)
        }
    }
}

pub fn build<const T: usize, const T1: usize, const E: usize, const E1: usize, const NR: usize, const NC: usize, const NE: usize, const NP: usize>(
    b: &Base,
    o: &Opt,
    level: usize,
) -> PoseidonParameters<T, T1, E, E1, NR, NC, NE, NP> {
    fn arr<M, const N: usize>(v: Vec<M>) -> [M; N] {
        v.try_into().ok().expect("harness: length")
    }
    PoseidonParameters {
        M: level,
        alpha: alpha_of(b.sbox),
        rounds: RoundNumbers { r_P: b.rp, r_F: b.rf },
        mds: MdsMatrix::new_from_known(fqs::<E>(&b.mds.d)),
        arc: ArcMatrix::new_from_known(fqs::<NE>(&b.arc.d)),
        optimized_arc: OptimizedArcMatrix(ArcMatrix::new_from_known(fqs::<NE>(&o.arc.d))),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix::new_from_known(fqs::<E1>(&o.m_hat.d)),
            v: Matrix::new_from_known(fqs::<T1>(&o.v.d)),
            w: Matrix::new_from_known(fqs::<T1>(&o.w.d)),
            M_prime: SquareMatrix::new_from_known(fqs::<E>(&o.m_prime.d)),
            M_doubleprime: SquareMatrix::new_from_known(fqs::<E>(&o.m_doubleprime.d)),
            M_inverse: SquareMatrix::new_from_known(fqs::<E>(&o.m_inv.d)),
            M_hat_inverse: SquareMatrix::new_from_known(fqs::<E1>(&o.m_hat_inv.d)),
            M_00: fq(o.m00),
            M_i: Matrix::new_from_known(fqs::<E>(&o.m_i.d)),
            v_collection: arr::<_, NP>(o.v_coll.iter().map(|x| Matrix::new_from_known(fqs::<T1>(x))).collect()),
            w_hat_collection: arr::<_, NP>(o.w_hat_coll.iter().map(|x| Matrix::new_from_known(fqs::<T1>(x))).collect()),
        },
    }
}

/// Shapes of generic parameter sets: (t, r_F, r_P).
macro_rules! shapes {
    ($(($t:expr, $f:expr, $p:expr)),* $(,)?) => {
        pub const SHAPES: &[(usize, usize, usize)] = &[$(($t, $f, $p)),*];
        pub fn build_shape(b: &Base, o: &Opt, level: usize) -> Box<dyn Params> {
            match (b.t, b.rf, b.rp) {
                $(($t, $f, $p) => Box::new(build::<$t, {$t - 1}, {$t * $t}, {($t - 1) * ($t - 1)}, {$f + $p}, $t, {($f + $p) * $t}, $p>(b, o, level)),)*
                s => panic!("harness: no shape {:?}", s),
            }
        }
    };
}
#[cfg(all(feature = "gen", not(miri)))]
shapes![
    (2, 2, 1), (2, 8, 31), (2, 6, 1), (2, 10, 57), (2, 4, 2), (2, 0, 5),
    (3, 2, 1), (3, 8, 31), (3, 8, 5), (3, 4, 3), (3, 2, 60), (3, 12, 2), (3, 0, 3),
    (4, 2, 1), (4, 8, 31), (4, 6, 8), (4, 8, 56),
    (5, 2, 2), (5, 8, 31), (5, 8, 57), (5, 4, 1),
    (6, 8, 31), (6, 2, 3), (6, 10, 7),
    (7, 8, 31), (7, 4, 4), (7, 2, 1),
    (8, 8, 31), (8, 2, 1), (8, 6, 20),
    (9, 8, 10), (9, 2, 1), (12, 8, 22), (12, 4, 2),
    // far from the shipped ones
    (17, 2, 2), (24, 4, 3), (40, 2, 1), (2, 2, 300), (3, 4, 129), (2, 260, 1), (4, 66, 3)
];
#[cfg(all(feature = "gen", miri))]
shapes![(2, 2, 1), (3, 2, 2)];
#[cfg(not(feature = "gen"))]
shapes![(2, 8, 31), (2, 4, 2), (3, 8, 31), (3, 2, 1)];

/// The shape of `custom(seed)`.
pub fn custom_shape(seed: u64) -> (usize, usize, usize) {
    let small: Vec<_> = SHAPES.iter().filter(|s| s.0 <= 4).collect();
    **Rng::new(seed, 78).pick(&small)
}

/// A parameter set that is a function of a number: for histories that must be repeatable in another process.
pub fn custom(seed: u64) -> (Base, Opt) {
    let mut r = Rng::new(seed, 77);
    loop {
        let (t, rf, rp) = custom_shape(seed);
        let sbox = match r.below(9) {
            0 => Sbox::Inv,
            1 => Sbox::Pow(3),
            2 | 3 => Sbox::Pow(5),
            4 => Sbox::Pow(7),
            5 => Sbox::Pow(1 + r.below(300) as u32),
            _ => Sbox::Pow(17),
        };
        let mut mds = crate::spec::cauchy(t);
        if r.chance(1, 2) {
            for x in mds.d.iter_mut() {
                *x = r.fe();
            }
        }
        let n = rf + rp;
        let arc = Mat::new(n, t, (0..n * t).map(|_| r.fe()).collect());
        let b = Base { t, rf, rp, sbox, mds, arc };
        if let Some(o) = crate::spec::derive_opt(&b) {
            return (b, o);
        }
    }
}

pub fn shipped_params(rate: usize) -> Box<dyn Params> {
    match rate {
        1 => Box::new(poseidon377::RATE_1_PARAMS),
        2 => Box::new(poseidon377::RATE_2_PARAMS),
        3 => Box::new(poseidon377::RATE_3_PARAMS),
        4 => Box::new(poseidon377::RATE_4_PARAMS),
        5 => Box::new(poseidon377::RATE_5_PARAMS),
        6 => Box::new(poseidon377::RATE_6_PARAMS),
        7 => Box::new(poseidon377::RATE_7_PARAMS),
        _ => panic!("harness: rate"),
    }
}
/// hash_n(domain separator, values) by rate.
pub fn hash(v: &[Fq]) -> Fq {
    let d = &v[0];
    match v.len() {
        2 => poseidon377::hash_1(d, v[1]),
        3 => poseidon377::hash_2(d, (v[1], v[2])),
        4 => poseidon377::hash_3(d, (v[1], v[2], v[3])),
        5 => poseidon377::hash_4(d, (v[1], v[2], v[3], v[4])),
        6 => poseidon377::hash_5(d, (v[1], v[2], v[3], v[4], v[5])),
        7 => poseidon377::hash_6(d, (v[1], v[2], v[3], v[4], v[5], v[6])),
        8 => poseidon377::hash_7(d, (v[1], v[2], v[3], v[4], v[5], v[6], v[7])),
        _ => panic!("harness: arity"),
    }
}
pub fn show(v: &[Fe]) -> String {
    format!("[{}]", v.iter().map(|x| x.hex()).collect::<Vec<_>>().join(", "))
}
