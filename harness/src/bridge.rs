//! Between reference elements and the elements of the code under test.
use crate::rf::Fe;
pub use poseidon377::Fq;

#[inline]
pub fn fq(x: Fe) -> Fq {
    Fq::from_montgomery_limbs(x.0)
}
/// Through the canonical byte encoding.
pub fn fq_bytes(x: Fe) -> Fq {
    match Fq::from_bytes_checked(&x.to_bytes()) {
        Ok(v) => v,
        Err(_) => panic!("harness: canonical encoding rejected"),
    }
}
pub fn fe(x: &Fq) -> Fe {
    Fe::from_bytes(&x.to_bytes()).unwrap_or_else(|| panic!("field element with a non-canonical encoding"))
}
pub fn fqs<const N: usize>(v: &[Fe]) -> [Fq; N] {
    let mut o = [Fq::from(0u64); N];
    assert_eq!(v.len(), N);
    for i in 0..N {
        o[i] = fq(v[i]);
    }
    o
}
pub fn fqv(v: &[Fe]) -> Vec<Fq> {
    v.iter().map(|x| fq(*x)).collect()
}
pub fn fev(v: &[Fq]) -> Vec<Fe> {
    v.iter().map(fe).collect()
}
/// Equality of a result with the expectation, through the type's own comparison and through its encoding.
#[inline]
pub fn same(got: &Fq, want: Fe) -> bool {
    *got == fq(want)
}
