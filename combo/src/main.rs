//! What a combination of features computes: one line per result, the same in every combination that has the part at all.
use decaf377::Fq;
use poseidon_parameters::v1::*;

/// Deterministic words, every third of them special.
struct Words(u64);
impl Words {
    fn next(&mut self) -> Fq {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let (k, x) = (self.0 >> 33, Fq::from(self.0 ^ self.0 >> 31));
        match k % 12 {
            0 => Fq::from(0u64),
            1 => Fq::from(1u64),
            2 => -Fq::from(k >> 8 & 15),
            3 => Fq::from(1u64 << (k >> 8 & 63)),
            _ => {
                let mut y = x;
                for _ in 0..4 {
                    y = y * y * y + x;
                }
                y
            }
        }
    }
    fn array<const N: usize>(&mut self) -> [Fq; N] {
        core::array::from_fn(|_| self.next())
    }
}
fn line(part: &str, i: usize, v: &[Fq]) {
    let mut s = String::new();
    for x in v {
        s.push(' ');
        for b in x.to_bytes() {
            s.push_str(&format!("{:02x}", b));
        }
    }
    println!("{} {}{}", part, i, s);
}

fn square<const N: usize, const E: usize, const N1: usize, const E1: usize>(w: &mut Words, i: usize) {
    let a = SquareMatrix::<N, E>::new(&w.array::<E>());
    let b = SquareMatrix::<N, E>::new_from_known(w.array());
    let n = |s: &str| format!("{}_{}", s, N);
    line(&n("determinant"), i, &[a.determinant()]);
    line(&n("minors"), i, a.minors().elements());
    line(&n("cofactors"), i, a.cofactors().elements());
    line(&n("product"), i, square_mat_mul::<N, E, N, E, E>(&a, &b).elements());
    line(&n("transpose"), i, a.transpose().elements());
    match a.inverse() {
        Ok(m) => line(&n("inverse"), i, m.elements()),
        Err(e) => println!("{} {} {} {:?}", n("inverse"), i, e, e),
    }
    line(&n("scaled"), i, (a.clone() * w.next()).elements());
    line(&n("hadamard"), i, a.hadamard_product(&b).unwrap().elements());
    let m = MdsMatrix::<N, N1, E, E1>::new(a.elements());
    line(&n("v"), i, m.v().elements());
    line(&n("w"), i, m.w().elements());
    line(&n("hat"), i, m.hat().elements());
    println!("{} {} {}", n("equal"), i, (a == b) as u8);
}

/// A small parameter set: the identity after the first layer makes the optimised constants easy to write down.
#[cfg(feature = "perm")]
fn own(w: &mut Words, alpha: Alpha) -> PoseidonParameters<2, 1, 4, 1, 3, 2, 6, 1> {
    let (o, z) = (Fq::from(1u64), Fq::from(0u64));
    let id = [o, z, z, o];
    let arc: [Fq; 6] = w.array();
    // with the identity as matrix the constants of a later round go through unchanged, except where an S-box is in between
    let (v, u) = (Matrix::<1, 1, 1>::new(&[z]), Matrix::<1, 1, 1>::new(&[z]));
    PoseidonParameters {
        M: 128,
        alpha,
        rounds: RoundNumbers { r_F: 2, r_P: 1 },
        mds: MdsMatrix::new(&id),
        arc: ArcMatrix::new(&arc),
        optimized_arc: OptimizedArcMatrix::new(&[arc[0], arc[1], arc[2], arc[3], arc[4], arc[5]]),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix::new(&[o]),
            v: v.clone(),
            w: u.clone(),
            M_prime: SquareMatrix::new(&id),
            M_doubleprime: SquareMatrix::new(&id),
            M_inverse: SquareMatrix::new(&id),
            M_hat_inverse: SquareMatrix::new(&[o]),
            M_00: o,
            M_i: Matrix::new(&id),
            v_collection: [v],
            w_hat_collection: [u],
        },
    }
}
#[cfg(feature = "perm")]
fn permutation(w: &mut Words) {
    for (i, a) in [Alpha::Exponent(17), Alpha::Exponent(5), Alpha::Inverse, Alpha::Exponent(257)].into_iter().enumerate() {
        let p = own(w, a);
        for k in 0..4 {
            let x: [Fq; 2] = w.array();
            let mut inst = poseidon_permutation::Instance::new(&p);
            let mut out = vec![inst.n_to_1_fixed_hash(&x)];
            out.extend(inst.output_words());
            line("optimised", 10 * i + k, &out);
            let mut out = vec![inst.unoptimized_n_to_1_fixed_hash(x)];
            out.extend(inst.output_words());
            line("unoptimised", 10 * i + k, &out);
        }
    }
}

#[cfg(feature = "hash")]
fn hashes(w: &mut Words) {
    use poseidon377::*;
    for i in 0..12 {
        let d = w.next();
        let [a, b, c, e, f, g, h]: [Fq; 7] = w.array();
        line("hash_1", i, &[hash_1(&d, a)]);
        line("hash_2", i, &[hash_2(&d, (a, b))]);
        line("hash_3", i, &[hash_3(&d, (a, b, c))]);
        line("hash_4", i, &[hash_4(&d, (a, b, c, e))]);
        line("hash_5", i, &[hash_5(&d, (a, b, c, e, f))]);
        line("hash_6", i, &[hash_6(&d, (a, b, c, e, f, g))]);
        line("hash_7", i, &[hash_7(&d, (a, b, c, e, f, g, h))]);
        let mut k = poseidon_permutation::Instance::new(&RATE_2_PARAMS);
        let mut out = vec![k.unoptimized_n_to_1_fixed_hash([d, a, b])];
        out.extend(k.output_words());
        line("whole_state", i, &out);
    }
    macro_rules! shipped {
        ($($p:ident),*) => { $(
            line(concat!(stringify!($p), "_arc"), 0, &$p.arc.elements()[..4]);
            line(concat!(stringify!($p), "_optimized_arc"), 0, $p.optimized_arc.elements());
            line(concat!(stringify!($p), "_mds"), 0, $p.mds.elements());
            println!("{} {:?} {:?} {}", stringify!($p), $p.alpha.to_bytes_le(), $p.rounds, $p.M);
        )* };
    }
    shipped!(RATE_1_PARAMS, RATE_2_PARAMS, RATE_3_PARAMS, RATE_4_PARAMS, RATE_5_PARAMS, RATE_6_PARAMS, RATE_7_PARAMS);
}

#[cfg(feature = "circ")]
fn circuit(name: &str, words: &[Fq], f: &dyn Fn(ark_relations::r1cs::ConstraintSystemRef<Fq>, &[decaf377::r1cs::FqVar]) -> decaf377::r1cs::FqVar) {
    use ark_r1cs_std::prelude::*;
    let cs = ark_relations::r1cs::ConstraintSystem::<Fq>::new_ref();
    let v: Vec<_> = words
        .iter()
        .enumerate()
        .map(|(i, x)| match i {
            0 => decaf377::r1cs::FqVar::new_constant(cs.clone(), *x).unwrap(),
            1 => decaf377::r1cs::FqVar::new_input(cs.clone(), || Ok(*x)).unwrap(),
            _ => decaf377::r1cs::FqVar::new_witness(cs.clone(), || Ok(*x)).unwrap(),
        })
        .collect();
    let x = f(cs.clone(), &v);
    line(&format!("circuit_{}", name), 0, &[x.value().unwrap()]);
    let n = (cs.num_instance_variables(), cs.num_witness_variables(), cs.num_constraints());
    println!("circuit_{}_size {:?} {}", name, n, cs.is_satisfied().unwrap());
}

fn main() {
    for i in 0..6 {
        let mut w = Words(1000 + i as u64);
        square::<1, 1, 0, 0>(&mut w, i);
        square::<2, 4, 1, 1>(&mut w, i);
        square::<3, 9, 2, 4>(&mut w, i);
        square::<4, 16, 3, 9>(&mut w, i);
        let a = Matrix::<2, 3, 6>::new(&w.array::<6>());
        let b = Matrix::<3, 2, 6>::new(&w.array::<6>());
        line("rectangular", i, mat_mul::<2, 3, 6, 3, 2, 6, 4>(&a, &b).elements());
        line("rectangular_transpose", i, a.transpose().elements());
    }
    for e in [1u32, 3, 17, 255, 256, 65537, u32::MAX] {
        println!("alpha {} {:?} {}", e, Alpha::Exponent(e).to_bytes_le(), f64::from(Alpha::Exponent(e)));
    }
    println!("alpha inverse {:?} {}", Alpha::Inverse.to_bytes_le(), f64::from(Alpha::Inverse));
    #[cfg(feature = "perm")]
    permutation(&mut Words(77));
    #[cfg(feature = "hash")]
    hashes(&mut Words(78));
    #[cfg(all(feature = "circ", feature = "perm"))]
    circuit("general", &Words(79).array::<2>(), &|cs, v| {
        let mut w = Words(5);
        poseidon_permutation::r1cs::InstanceVar::n_to_1_fixed_hash(own(&mut w, Alpha::Exponent(5)), cs, [v[0].clone(), v[1].clone()])
    });
    #[cfg(all(feature = "circ", feature = "hash"))]
    {
        use poseidon377::r1cs::*;
        let x: [Fq; 8] = Words(99).array();
        let c = |v: &[decaf377::r1cs::FqVar], i: usize| v[i].clone();
        circuit("hash_1", &x[..2], &|cs, v| hash_1(cs, &v[0], c(v, 1)).unwrap());
        circuit("hash_2", &x[..3], &|cs, v| hash_2(cs, &v[0], (c(v, 1), c(v, 2))).unwrap());
        circuit("hash_3", &x[..4], &|cs, v| hash_3(cs, &v[0], (c(v, 1), c(v, 2), c(v, 3))).unwrap());
        circuit("hash_4", &x[..5], &|cs, v| hash_4(cs, &v[0], (c(v, 1), c(v, 2), c(v, 3), c(v, 4))).unwrap());
        circuit("hash_5", &x[..6], &|cs, v| hash_5(cs, &v[0], (c(v, 1), c(v, 2), c(v, 3), c(v, 4), c(v, 5))).unwrap());
        circuit("hash_6", &x[..7], &|cs, v| hash_6(cs, &v[0], (c(v, 1), c(v, 2), c(v, 3), c(v, 4), c(v, 5), c(v, 6))).unwrap());
        circuit("hash_7", &x[..8], &|cs, v| hash_7(cs, &v[0], (c(v, 1), c(v, 2), c(v, 3), c(v, 4), c(v, 5), c(v, 6), c(v, 7))).unwrap());
    }
    println!("done");
}
