//! Generated round constants and exponents for a few fields, one line each: compared between the host and other targets under Miri.
//! port <first> <count>
use ark_ff::fields::{Fp, MontBackend, MontConfig};
use ark_ff::PrimeField;
use num_bigint::BigUint;
use paramgen::input::InputParameters;
use poseidon_parameters::v1::*;

macro_rules! field {
    ($c:ident, $f:ident, $m:literal, $g:literal, $n:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $c;
        pub type $f = Fp<MontBackend<$c, $n>, $n>;
    };
}
field!(C0, F0, "18446744069414584321", "7", 1);
field!(C1, F1, "340282366920938463463374607431768211297", "3", 2);
field!(C2, F2, "8444461749428370424248824938781546531375899335154063827935233455917409239041", "22", 4);
field!(C3, F3, "115792089237316195423570985008687907853269984665640564039457584007908834671663", "3", 4);

fn line<F: PrimeField>(i: usize, k: usize) {
    let m = [80, 128, 256, 512, 65664][k % 5];
    let t = 2 + k % 7;
    let (rf, rp) = (2 + 2 * (k % 2), 1 + k % 5);
    let a = if k % 4 == 3 { Alpha::Inverse } else { Alpha::Exponent([3, 17, 257, 0x01020305][k % 4]) };
    let input = InputParameters::generate(m, t, F::MODULUS, true);
    let rn = RoundNumbers { r_F: rf, r_P: rp };
    // A few constants are enough: they all come from one transcript.
    let mut c = Vec::new();
    if k % 2 == 0 {
        c.extend(paramgen::round_constants::v1_generate::<F>(&input, rn, a).elements().iter().map(|x| x.into_bigint().into()));
    } else {
        c.extend(paramgen::round_constants::v2_generate::<F>(&input, rn, a).elements().iter().map(|x| x.into_bigint().into()));
    }
    let h = c.iter().flat_map(|x: &BigUint| x.to_bytes_le()).fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    println!("field {} M={} t={} {} full and {} partial rounds, {:?}: {} constants, first {}, digest {:016x}; exponent {:?}", i, m, t, rf, rp, a, c.len(), c[0], h,
        paramgen::alpha::generate::<F>(F::MODULUS, true));
}

fn main() {
    let a: Vec<usize> = std::env::args().skip(1).map(|x| x.parse().expect("a number")).collect();
    for k in a[0]..a[0] + a[1] {
        match k % 4 {
            0 => line::<F0>(0, k / 4),
            1 => line::<F1>(1, k / 4),
            2 => line::<F2>(2, k / 4),
            _ => line::<F3>(3, k / 4),
        }
    }
    println!("done");
}
