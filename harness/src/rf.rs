//! Reference arithmetic in the scalar field of BLS12-377, independent of the code under test.
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub const P: [u64; 4] = [
    725501752471715841,
    6461107452199829505,
    6968279316240510977,
    1345280370688173398,
];

/// Element in Montgomery form (R = 2^256), always fully reduced.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Fe(pub [u64; 4]);

#[inline(always)]
const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = a as u128 + b as u128 + c as u128;
    (t as u64, (t >> 64) as u64)
}
#[inline(always)]
const fn sbb(a: u64, b: u64, bor: u64) -> (u64, u64) {
    let t = (a as u128).wrapping_sub(b as u128 + bor as u128);
    (t as u64, ((t >> 64) as u64) & 1)
}
#[inline(always)]
const fn mac(a: u64, b: u64, c: u64, carry: u64) -> (u64, u64) {
    let t = a as u128 + (b as u128) * (c as u128) + carry as u128;
    (t as u64, (t >> 64) as u64)
}
const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let (r0, c) = sbb(a[0], b[0], 0);
    let (r1, c) = sbb(a[1], b[1], c);
    let (r2, c) = sbb(a[2], b[2], c);
    let (r3, _) = sbb(a[3], b[3], c);
    [r0, r1, r2, r3]
}
const fn reduce_once(a: [u64; 4]) -> [u64; 4] {
    if geq(&a, &P) {
        sub4(&a, &P)
    } else {
        a
    }
}
const fn add4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let (r0, c) = adc(a[0], b[0], 0);
    let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c);
    let (r3, _) = adc(a[3], b[3], c);
    reduce_once([r0, r1, r2, r3])
}
const fn ninv() -> u64 {
    // -p^-1 mod 2^64 by Newton iteration
    let p = P[0];
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(p.wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
}
pub const NINV: u64 = ninv();
const fn pow2_mod(n: usize) -> [u64; 4] {
    let mut x = [1u64, 0, 0, 0];
    let mut i = 0;
    while i < n {
        x = add4(&x, &x);
        i += 1;
    }
    x
}
/// 2^256 mod p
pub const R: [u64; 4] = pow2_mod(256);
/// 2^512 mod p
pub const R2: [u64; 4] = pow2_mod(512);

#[inline(always)]
fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let (x, c) = mac(t[0], a[0], b[i], 0);
        t[0] = x;
        let (x, c) = mac(t[1], a[1], b[i], c);
        t[1] = x;
        let (x, c) = mac(t[2], a[2], b[i], c);
        t[2] = x;
        let (x, c) = mac(t[3], a[3], b[i], c);
        t[3] = x;
        let (x, c) = adc(t[4], c, 0);
        t[4] = x;
        t[5] = c;
        let m = t[0].wrapping_mul(NINV);
        let (_, c) = mac(t[0], m, P[0], 0);
        let (x, c) = mac(t[1], m, P[1], c);
        t[0] = x;
        let (x, c) = mac(t[2], m, P[2], c);
        t[1] = x;
        let (x, c) = mac(t[3], m, P[3], c);
        t[2] = x;
        let (x, c) = adc(t[4], c, 0);
        t[3] = x;
        t[4] = t[5] + c;
    }
    reduce_once([t[0], t[1], t[2], t[3]])
}

impl Fe {
    pub const ZERO: Fe = Fe([0; 4]);
    pub const ONE: Fe = Fe(R);

    pub fn from_u64(x: u64) -> Fe {
        Fe(mont_mul(&[x, 0, 0, 0], &R2))
    }
    pub fn from_i64(x: i64) -> Fe {
        if x < 0 {
            -Fe::from_u64(x.unsigned_abs())
        } else {
            Fe::from_u64(x as u64)
        }
    }
    /// From an integer below 2^256, reduced.
    pub fn from_int(mut x: [u64; 4]) -> Fe {
        while geq(&x, &P) {
            x = sub4(&x, &P);
        }
        Fe(mont_mul(&x, &R2))
    }
    /// From a Montgomery representation (reduced if needed).
    pub fn from_mont(mut x: [u64; 4]) -> Fe {
        while geq(&x, &P) {
            x = sub4(&x, &P);
        }
        Fe(x)
    }
    /// The canonical integer.
    pub fn to_int(self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    pub fn to_bytes(self) -> [u8; 32] {
        let x = self.to_int();
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&x[i].to_le_bytes());
        }
        o
    }
    /// Canonical only.
    pub fn from_bytes(b: &[u8; 32]) -> Option<Fe> {
        let mut x = [0u64; 4];
        for i in 0..4 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&b[8 * i..8 * i + 8]);
            x[i] = u64::from_le_bytes(w);
        }
        if geq(&x, &P) {
            None
        } else {
            Some(Fe(mont_mul(&x, &R2)))
        }
    }
    /// Little-endian integer of any length, reduced.
    pub fn from_le_mod(b: &[u8]) -> Fe {
        let mut acc = Fe::ZERO;
        let k = Fe::from_u64(256);
        for &x in b.iter().rev() {
            acc = acc * k + Fe::from_u64(x as u64);
        }
        acc
    }
    pub fn from_dec(s: &str) -> Fe {
        let mut acc = Fe::ZERO;
        let k = Fe::from_u64(10);
        for c in s.bytes() {
            acc = acc * k + Fe::from_u64((c - b'0') as u64);
        }
        acc
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn sq(self) -> Fe {
        self * self
    }
    pub fn pow_u64(self, mut e: u64) -> Fe {
        let mut r = Fe::ONE;
        let mut b = self;
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b.sq();
            e >>= 1;
        }
        r
    }
    pub fn pow17(self) -> Fe {
        let a = self.sq().sq();
        a.sq().sq() * self
    }
    /// Power by a 256-bit exponent, 4-bit window.
    pub fn pow_big(self, e: &[u64; 4]) -> Fe {
        let mut tab = [Fe::ONE; 16];
        for i in 1..16 {
            tab[i] = tab[i - 1] * self;
        }
        let mut r = Fe::ONE;
        let mut started = false;
        for i in (0..64).rev() {
            if started {
                r = r.sq().sq().sq().sq();
            }
            let nib = (e[i / 16] >> (4 * (i % 16))) & 15;
            if nib != 0 {
                r = r * tab[nib as usize];
                started = true;
            }
        }
        r
    }
    pub fn inv(self) -> Option<Fe> {
        if self.is_zero() {
            return None;
        }
        let e = sub4(&P, &[2, 0, 0, 0]);
        Some(self.pow_big(&e))
    }
    /// Inverse with 0 -> 0.
    pub fn inv0(self) -> Fe {
        self.inv().unwrap_or(Fe::ZERO)
    }
    pub fn hex(self) -> String {
        let x = self.to_int();
        format!("0x{:016x}{:016x}{:016x}{:016x}", x[3], x[2], x[1], x[0])
    }
    pub fn from_hex(s: &str) -> Option<Fe> {
        let s = s.trim_start_matches("0x");
        let mut acc = Fe::ZERO;
        let k = Fe::from_u64(16);
        for c in s.chars() {
            acc = acc * k + Fe::from_u64(c.to_digit(16)? as u64);
        }
        Some(acc)
    }
}
impl std::fmt::Debug for Fe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.hex())
    }
}
impl Add for Fe {
    type Output = Fe;
    fn add(self, o: Fe) -> Fe {
        Fe(add4(&self.0, &o.0))
    }
}
impl Sub for Fe {
    type Output = Fe;
    fn sub(self, o: Fe) -> Fe {
        if geq(&self.0, &o.0) {
            Fe(sub4(&self.0, &o.0))
        } else {
            Fe(sub4(&P, &sub4(&o.0, &self.0)))
        }
    }
}
impl Neg for Fe {
    type Output = Fe;
    fn neg(self) -> Fe {
        Fe::ZERO - self
    }
}
impl Mul for Fe {
    type Output = Fe;
    #[inline(always)]
    fn mul(self, o: Fe) -> Fe {
        Fe(mont_mul(&self.0, &o.0))
    }
}
impl AddAssign for Fe {
    fn add_assign(&mut self, o: Fe) {
        *self = *self + o
    }
}
impl SubAssign for Fe {
    fn sub_assign(&mut self, o: Fe) {
        *self = *self - o
    }
}
impl MulAssign for Fe {
    fn mul_assign(&mut self, o: Fe) {
        *self = *self * o
    }
}

/// Small unsigned big-integer helpers on 256-bit values (only used at start-up).
pub mod big {
    use super::*;
    pub fn p_minus_1() -> [u64; 4] {
        sub4(&P, &[1, 0, 0, 0])
    }
    pub fn rem_small(a: &[u64; 4], m: u64) -> u64 {
        let mut r = 0u128;
        for i in (0..4).rev() {
            r = ((r << 64) | a[i] as u128) % m as u128;
        }
        r as u64
    }
    pub fn div_small(a: &[u64; 4], m: u64) -> [u64; 4] {
        let mut r = 0u128;
        let mut q = [0u64; 4];
        for i in (0..4).rev() {
            let c = (r << 64) | a[i] as u128;
            q[i] = (c / m as u128) as u64;
            r = c % m as u128;
        }
        q
    }
    pub fn gcd(mut a: u64, mut b: u64) -> u64 {
        while b != 0 {
            let t = a % b;
            a = b;
            b = t;
        }
        a
    }
    /// gcd(alpha, p-1)
    pub fn gcd_pm1(alpha: u64) -> u64 {
        gcd(alpha, rem_small(&p_minus_1(), alpha))
    }
    /// alpha^-1 mod (p-1), for alpha coprime to p-1.
    pub fn inv_mod_pm1(alpha: u64) -> [u64; 4] {
        // find k with k*(p-1) + 1 = 0 mod alpha, then (k*(p-1)+1)/alpha
        let m = p_minus_1();
        let r = rem_small(&m, alpha);
        // k = -1/r mod alpha by the extended Euclidean algorithm
        let (mut r0, mut r1, mut s0, mut s1) = (alpha as i128, r as i128, 0i128, 1i128);
        while r1 != 0 {
            let q = r0 / r1;
            (r0, r1) = (r1, r0 - q * r1);
            (s0, s1) = (s1, s0 - q * s1);
        }
        assert!(r0 == 1 || alpha == 1, "alpha not coprime to p-1");
        let k = (-s0).rem_euclid(alpha as i128) as u64;
        assert!((k as u128 * r as u128 + 1) % alpha as u128 == 0 || alpha == 1);
        // k*(p-1)+1 fits 5 limbs
        let mut t = [0u64; 5];
        let mut c = 1u128;
        for i in 0..4 {
            let v = m[i] as u128 * k as u128 + c;
            t[i] = v as u64;
            c = v >> 64;
        }
        t[4] = c as u64;
        let mut rem = 0u128;
        let mut q = [0u64; 5];
        for i in (0..5).rev() {
            let cur = (rem << 64) | t[i] as u128;
            q[i] = (cur / alpha as u128) as u64;
            rem = cur % alpha as u128;
        }
        assert!(rem == 0 && q[4] == 0);
        [q[0], q[1], q[2], q[3]]
    }
}
