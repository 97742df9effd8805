//! Reference model of Poseidon, its parameters and its optimised form, over plain vectors.
use crate::merlin::Transcript;
use crate::rf::{big, Fe};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Mat {
    pub r: usize,
    pub c: usize,
    pub d: Vec<Fe>,
}
impl Mat {
    pub fn new(r: usize, c: usize, d: Vec<Fe>) -> Mat {
        assert_eq!(d.len(), r * c);
        Mat { r, c, d }
    }
    pub fn zero(r: usize, c: usize) -> Mat {
        Mat { r, c, d: vec![Fe::ZERO; r * c] }
    }
    pub fn id(n: usize) -> Mat {
        let mut m = Mat::zero(n, n);
        for i in 0..n {
            *m.at_mut(i, i) = Fe::ONE;
        }
        m
    }
    pub fn at(&self, i: usize, j: usize) -> Fe {
        assert!(i < self.r && j < self.c);
        self.d[i * self.c + j]
    }
    pub fn at_mut(&mut self, i: usize, j: usize) -> &mut Fe {
        assert!(i < self.r && j < self.c);
        &mut self.d[i * self.c + j]
    }
    pub fn t(&self) -> Mat {
        let mut m = Mat::zero(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                *m.at_mut(j, i) = self.at(i, j);
            }
        }
        m
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        assert_eq!(self.c, o.r);
        let mut m = Mat::zero(self.r, o.c);
        for i in 0..self.r {
            for j in 0..o.c {
                let mut s = Fe::ZERO;
                for k in 0..self.c {
                    s += self.at(i, k) * o.at(k, j);
                }
                *m.at_mut(i, j) = s;
            }
        }
        m
    }
    pub fn apply(&self, v: &[Fe]) -> Vec<Fe> {
        let mut out = Vec::with_capacity(self.r);
        for i in 0..self.r {
            let mut s = Fe::ZERO;
            for (k, x) in v.iter().enumerate() {
                s += self.d[i * self.c + k] * *x;
            }
            out.push(s);
        }
        out
    }
    /// Delete row i and column j.
    pub fn minor(&self, i: usize, j: usize) -> Mat {
        let mut d = Vec::new();
        for a in 0..self.r {
            for b in 0..self.c {
                if a != i && b != j {
                    d.push(self.at(a, b));
                }
            }
        }
        Mat::new(self.r - 1, self.c - 1, d)
    }
    /// Determinant by Gaussian elimination with pivoting (1 for the empty matrix).
    pub fn det(&self) -> Fe {
        assert_eq!(self.r, self.c);
        let n = self.r;
        let mut a = self.clone();
        let mut det = Fe::ONE;
        for k in 0..n {
            let p = match (k..n).find(|&i| !a.at(i, k).is_zero()) {
                None => return Fe::ZERO,
                Some(p) => p,
            };
            if p != k {
                for j in 0..n {
                    let x = a.at(k, j);
                    *a.at_mut(k, j) = a.at(p, j);
                    *a.at_mut(p, j) = x;
                }
                det = -det;
            }
            det *= a.at(k, k);
            let iv = a.at(k, k).inv().unwrap();
            for i in k + 1..n {
                let f = a.at(i, k) * iv;
                if f.is_zero() {
                    continue;
                }
                for j in k..n {
                    let y = a.at(k, j);
                    *a.at_mut(i, j) -= f * y;
                }
            }
        }
        det
    }
    pub fn inv(&self) -> Option<Mat> {
        assert_eq!(self.r, self.c);
        let n = self.r;
        let mut a = self.clone();
        let mut b = Mat::id(n);
        for k in 0..n {
            let p = (k..n).find(|&i| !a.at(i, k).is_zero())?;
            if p != k {
                for j in 0..n {
                    a.d.swap(k * n + j, p * n + j);
                    b.d.swap(k * n + j, p * n + j);
                }
            }
            let iv = a.at(k, k).inv().unwrap();
            for j in 0..n {
                *a.at_mut(k, j) *= iv;
                *b.at_mut(k, j) *= iv;
            }
            for i in 0..n {
                if i == k {
                    continue;
                }
                let f = a.at(i, k);
                if f.is_zero() {
                    continue;
                }
                for j in 0..n {
                    let x = a.at(k, j);
                    let y = b.at(k, j);
                    *a.at_mut(i, j) -= f * x;
                    *b.at_mut(i, j) -= f * y;
                }
            }
        }
        Some(b)
    }
    pub fn rank(&self) -> usize {
        let mut a = self.clone();
        let mut rk = 0;
        for j in 0..a.c {
            let p = match (rk..a.r).find(|&i| !a.at(i, j).is_zero()) {
                None => continue,
                Some(p) => p,
            };
            for q in 0..a.c {
                a.d.swap(rk * self.c + q, p * self.c + q);
            }
            let iv = a.at(rk, j).inv().unwrap();
            for i in rk + 1..a.r {
                let f = a.at(i, j) * iv;
                for q in 0..a.c {
                    let y = a.at(rk, q);
                    *a.at_mut(i, q) -= f * y;
                }
            }
            rk += 1;
            if rk == a.r {
                break;
            }
        }
        rk
    }
    /// Remove first row and column.
    pub fn hat(&self) -> Mat {
        self.minor(0, 0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sbox {
    Pow(u32),
    Inv,
}
impl Sbox {
    pub fn eval(self, x: Fe) -> Fe {
        match self {
            Sbox::Pow(17) => x.pow17(),
            Sbox::Pow(e) => x.pow_u64(e as u64),
            Sbox::Inv => x.inv0(),
        }
    }
    /// Is it a permutation of the field?
    pub fn bijective(self) -> bool {
        match self {
            Sbox::Pow(0) => false,
            Sbox::Pow(e) => big::gcd_pm1(e as u64) == 1,
            Sbox::Inv => true,
        }
    }
    pub fn inv_exp(self) -> Option<[u64; 4]> {
        match self {
            Sbox::Pow(e) if self.bijective() => Some(big::inv_mod_pm1(e as u64)),
            _ => None,
        }
    }
}

/// Base parameters.
#[derive(Clone, Debug)]
pub struct Base {
    pub t: usize,
    pub rf: usize,
    pub rp: usize,
    pub sbox: Sbox,
    pub mds: Mat,
    pub arc: Mat, // (rf+rp) x t
}

/// Optimised constants in the form the code under test stores them.
#[derive(Clone, Debug)]
pub struct Opt {
    pub m_hat: Mat,
    pub m_hat_inv: Mat,
    pub v: Mat,
    pub w: Mat,
    pub m_prime: Mat,
    pub m_doubleprime: Mat,
    pub m_inv: Mat,
    pub m00: Fe,
    pub m_i: Mat,
    pub v_coll: Vec<Vec<Fe>>,
    pub w_hat_coll: Vec<Vec<Fe>>,
    pub arc: Mat,
}

pub fn cauchy(t: usize) -> Mat {
    let mut m = Mat::zero(t, t);
    for i in 0..t {
        for j in 0..t {
            *m.at_mut(i, j) = Fe::from_u64((i + t + j) as u64).inv().unwrap();
        }
    }
    m
}

/// Transcript-derived round constants.
pub fn transcript_arc(n: usize, t: usize, m: usize, p_le: &[u8], rf: usize, rp: usize, alpha: [u8; 4], bits: usize) -> Vec<Vec<u8>> {
    let mut tr = Transcript::new(b"round-constants");
    tr.append(b"dom-sep", b"poseidon-paramgen");
    tr.append(b"t", &(t as u64).to_le_bytes());
    tr.append(b"M", &(m as u64).to_le_bytes());
    tr.append(b"p", p_le);
    tr.append(b"r_F", &[rf as u8]);
    tr.append(b"r_P", &[rp as u8]);
    tr.append(b"alpha", &alpha);
    (0..n)
        .map(|_| {
            let mut b = vec![0u8; (bits + 135) / 8];
            tr.challenge(b"round-constant", &mut b);
            b
        })
        .collect()
}

pub fn p_bytes() -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&crate::rf::P[i].to_le_bytes());
    }
    o
}

/// The parameters poseidon377 documents for a rate.
pub fn shipped(rate: usize) -> Base {
    let t = rate + 1;
    let (rf, rp, alpha) = (8, 31, 17u32);
    let raw = transcript_arc((rf + rp) * t, t, 128, &p_bytes(), rf, rp, alpha.to_le_bytes(), 253);
    let arc = Mat::new(rf + rp, t, raw.iter().map(|b| Fe::from_le_mod(b)).collect());
    Base { t, rf, rp, sbox: Sbox::Pow(alpha), mds: cauchy(t), arc }
}

fn embed(m: &Mat) -> Mat {
    let n = m.r + 1;
    let mut o = Mat::id(n);
    for i in 1..n {
        for j in 1..n {
            *o.at_mut(i, j) = m.at(i - 1, j - 1);
        }
    }
    o
}

/// Derive the optimised constants (Appendix B of the Poseidon paper). None if some submatrix is singular.
pub fn derive_opt(b: &Base) -> Option<Opt> {
    let t = b.t;
    let m_inv = b.mds.inv()?;
    let m_hat = b.mds.hat();
    let m_hat_inv = m_hat.inv()?;
    let v = Mat::new(1, t - 1, (1..t).map(|j| b.mds.at(0, j)).collect());
    let w = Mat::new(t - 1, 1, (1..t).map(|i| b.mds.at(i, 0)).collect());
    let m_prime = embed(&m_hat);
    let w_hat = m_hat_inv.mul(&w);
    let mut m_doubleprime = Mat::id(t);
    *m_doubleprime.at_mut(0, 0) = b.mds.at(0, 0);
    for j in 1..t {
        *m_doubleprime.at_mut(0, j) = v.at(0, j - 1);
        *m_doubleprime.at_mut(j, 0) = w_hat.at(j - 1, 0);
    }
    // Factor the linear layers of the partial rounds from the last one backwards. The code stores the vectors of the
    // transposed matrices: round k from the end uses new0 = m00 s0 + w_hat . s_rest, new_rest = v s0 + s_rest.
    let mt = b.mds.t();
    let mut cur = mt.clone();
    let mut v_coll = Vec::new();
    let mut w_hat_coll = Vec::new();
    let mut m_i = Mat::id(t);
    for _ in 0..b.rp {
        let h = cur.hat();
        let wc = Mat::new(t - 1, 1, (1..t).map(|i| cur.at(i, 0)).collect());
        v_coll.push((1..t).map(|j| cur.at(0, j)).collect());
        w_hat_coll.push(h.inv()?.mul(&wc).d);
        m_i = embed(&h);
        cur = mt.mul(&m_i);
    }
    let m_i = m_i.t();
    // Move the partial rounds' constants backwards through the linear layer.
    let mut arc = b.arc.clone();
    let half = b.rf / 2;
    for r in (half..half + b.rp - 1).rev() {
        let row: Vec<Fe> = (0..t).map(|j| arc.at(r + 1, j)).collect();
        let back = m_inv.apply(&row);
        for j in 1..t {
            *arc.at_mut(r, j) += back[j];
        }
        *arc.at_mut(r + 1, 0) = back[0];
        for j in 1..t {
            *arc.at_mut(r + 1, j) = Fe::ZERO;
        }
    }
    Some(Opt { m00: b.mds.at(0, 0), m_hat, m_hat_inv, v, w, m_prime, m_doubleprime, m_inv, m_i, v_coll, w_hat_coll, arc })
}

#[derive(Clone, Debug)]
pub enum Layer {
    Add(Vec<Fe>),
    Add0(Fe),
    Full,
    Partial,
    Dense(Mat, Mat),
    Sparse { m00: Fe, v: Vec<Fe>, w: Vec<Fe>, inv: Mat },
}

/// A permutation as a list of layers that can be run forwards and backwards.
#[derive(Clone, Debug)]
pub struct Plan {
    pub t: usize,
    pub sbox: Sbox,
    pub dexp: Option<[u64; 4]>,
    pub layers: Vec<Layer>,
}
/// The widest state `Plan::run` takes.
const WIDEST: usize = 40;
impl Plan {
    pub fn plain(b: &Base) -> Plan {
        let mut l = Vec::new();
        let mi = b.mds.inv().expect("MDS invertible");
        for r in 0..b.rf + b.rp {
            l.push(Layer::Add((0..b.t).map(|j| b.arc.at(r, j)).collect()));
            if r < b.rf / 2 || r >= b.rf / 2 + b.rp {
                l.push(Layer::Full);
            } else {
                l.push(Layer::Partial);
            }
            l.push(Layer::Dense(b.mds.clone(), mi.clone()));
        }
        Plan { t: b.t, sbox: b.sbox, dexp: b.sbox.inv_exp(), layers: l }
    }
    pub fn optimised(b: &Base, o: &Opt) -> Plan {
        let mut l = Vec::new();
        let mi = b.mds.inv().unwrap();
        let row = |r: usize| -> Vec<Fe> { (0..b.t).map(|j| o.arc.at(r, j)).collect() };
        let half = b.rf / 2;
        for r in 0..half {
            l.push(Layer::Add(row(r)));
            l.push(Layer::Full);
            l.push(Layer::Dense(b.mds.clone(), mi.clone()));
        }
        l.push(Layer::Add(row(half)));
        l.push(Layer::Dense(o.m_i.clone(), o.m_i.inv().unwrap()));
        for k in 0..b.rp {
            l.push(Layer::Partial);
            if k + 1 < b.rp {
                l.push(Layer::Add0(o.arc.at(half + k + 1, 0)));
            }
            let idx = b.rp - 1 - k;
            let mut s = Mat::id(b.t);
            *s.at_mut(0, 0) = o.m00;
            for j in 1..b.t {
                *s.at_mut(0, j) = o.w_hat_coll[idx][j - 1];
                *s.at_mut(j, 0) = o.v_coll[idx][j - 1];
            }
            l.push(Layer::Sparse { m00: o.m00, v: o.v_coll[idx].clone(), w: o.w_hat_coll[idx].clone(), inv: s.inv().unwrap() });
        }
        for r in half + b.rp..b.rf + b.rp {
            l.push(Layer::Add(row(r)));
            l.push(Layer::Full);
            l.push(Layer::Dense(b.mds.clone(), mi.clone()));
        }
        Plan { t: b.t, sbox: b.sbox, dexp: b.sbox.inv_exp(), layers: l }
    }
    pub fn run(&self, input: &[Fe]) -> Vec<Fe> {
        self.run_range(input, 0, self.layers.len())
    }
    pub fn run_range(&self, input: &[Fe], from: usize, to: usize) -> Vec<Fe> {
        let mut s = [Fe::ZERO; WIDEST];
        let t = self.t;
        s[..t].copy_from_slice(input);
        for l in &self.layers[from..to] {
            match l {
                Layer::Add(c) => {
                    for i in 0..t {
                        s[i] += c[i];
                    }
                }
                Layer::Add0(c) => s[0] += *c,
                Layer::Full => {
                    for x in s[..t].iter_mut() {
                        *x = self.sbox.eval(*x);
                    }
                }
                Layer::Partial => s[0] = self.sbox.eval(s[0]),
                Layer::Dense(m, _) => {
                    let mut o = [Fe::ZERO; WIDEST];
                    for i in 0..t {
                        let row = &m.d[i * t..i * t + t];
                        let mut acc = Fe::ZERO;
                        for k in 0..t {
                            acc += row[k] * s[k];
                        }
                        o[i] = acc;
                    }
                    s = o;
                }
                Layer::Sparse { m00, v, w, .. } => {
                    let s0 = s[0];
                    let mut acc = *m00 * s0;
                    for j in 1..t {
                        acc += w[j - 1] * s[j];
                        s[j] += v[j - 1] * s0;
                    }
                    s[0] = acc;
                }
            }
        }
        s[..t].to_vec()
    }
    pub fn can_invert(&self) -> bool {
        self.sbox == Sbox::Inv || self.dexp.is_some()
    }
    /// Undo layers [0, k): which input leads to `state` just before layer k?
    pub fn back(&self, state: &[Fe], k: usize) -> Vec<Fe> {
        let mut s = state.to_vec();
        let si = |x: Fe| -> Fe {
            match self.sbox {
                Sbox::Inv => x.inv0(),
                Sbox::Pow(_) => x.pow_big(self.dexp.as_ref().expect("bijective S-box")),
            }
        };
        for l in self.layers[..k].iter().rev() {
            match l {
                Layer::Add(c) => {
                    for i in 0..self.t {
                        s[i] -= c[i];
                    }
                }
                Layer::Add0(c) => s[0] -= *c,
                Layer::Full => {
                    for x in s.iter_mut() {
                        *x = si(*x);
                    }
                }
                Layer::Partial => s[0] = si(s[0]),
                Layer::Dense(_, inv) => s = inv.apply(&s),
                Layer::Sparse { inv, .. } => s = inv.apply(&s),
            }
        }
        s
    }
    pub fn invert(&self, output: &[Fe]) -> Vec<Fe> {
        self.back(output, self.layers.len())
    }
    /// Layer indices before which a state can be targeted without inverting an S-box.
    pub fn first_sbox(&self) -> usize {
        self.layers
            .iter()
            .position(|l| matches!(l, Layer::Full | Layer::Partial))
            .unwrap_or(self.layers.len())
    }
}

/// Everything the monitors need for one shipped rate.
pub struct Ref {
    pub base: Base,
    pub opt: Opt,
    pub plain: Plan,
    pub fast: Plan,
}
impl Ref {
    pub fn new(base: Base) -> Option<Ref> {
        let opt = derive_opt(&base)?;
        let plain = Plan::plain(&base);
        let fast = Plan::optimised(&base, &opt);
        Some(Ref { base, opt, plain, fast })
    }
}

pub fn shipped_refs() -> Vec<Ref> {
    (1..=7).map(|r| Ref::new(shipped(r)).expect("shipped parameters are well formed")).collect()
}

/// Published known answers (independent of both the model and the code under test): the Sage implementation's
/// permutation of [0,1,2] at width 3, and round constants printed in the Sage script.
pub fn self_check(refs: &[Ref]) -> Result<(), String> {
    let kat_out = [
        "6368779772888548211318735707249600947486536081021109980085678920065117075165",
        "546637332213889354237126997303352456465330747031466737868777261691321847212",
        "1488544471679348337017344865262529731114801536476862121626711131361325263279",
    ];
    let r = &refs[1];
    let input: Vec<Fe> = (0..3).map(Fe::from_u64).collect();
    let want: Vec<Fe> = kat_out.iter().map(|s| Fe::from_dec(s)).collect();
    if r.plain.run(&input) != want {
        return Err("reference disagrees with the published permutation vector".into());
    }
    let rc0 = [
        "308026635595114235070436728341841505234226384644787941764356225291780075012",
        "686850750308311448868354907988153221833589417264043199872750834851275630399",
        "5458865526113744175375673481036999502881423789202235030915223710930508573500",
        "1216889461603982466063117074419064018993731784023337352219629352951004218382",
        "4580374146984258872617301222640071415348151863297599652351895199406510624060",
    ];
    for (i, s) in rc0.iter().enumerate() {
        if r.base.arc.d[i] != Fe::from_dec(s) {
            return Err(format!("reference round constant {} disagrees with the published script", i));
        }
    }
    let mut x = 0x1234567u64;
    for r in refs {
        for _ in 0..3 {
            let inp: Vec<Fe> = (0..r.base.t)
                .map(|_| {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    Fe::from_mont([x, x ^ 77, x.rotate_left(9), x >> 4])
                })
                .collect();
            let o = r.plain.run(&inp);
            if o != r.fast.run(&inp) {
                return Err("reference plans disagree".into());
            }
            if r.plain.invert(&o) != inp || r.fast.invert(&o) != inp {
                return Err("reference inverse wrong".into());
            }
        }
    }
    Ok(())
}
