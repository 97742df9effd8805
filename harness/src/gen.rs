//! Workload generation.
use crate::rf::{Fe, P};
use crate::spec::{Layer, Mat, Plan};

#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut z = seed ^ stream.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
        let mut s = [0u64; 4];
        for x in s.iter_mut() {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut y = z;
            y = (y ^ (y >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            y = (y ^ (y >> 27)).wrapping_mul(0x94D049BB133111EB);
            *x = y ^ (y >> 31);
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn fe(&mut self) -> Fe {
        loop {
            let x = [self.u64(), self.u64(), self.u64(), self.u64() >> 3];
            if x[3] < P[3] {
                return Fe(x);
            }
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// Hostile field elements.
pub struct Pool {
    pub all: Vec<Fe>,
    pub core: Vec<Fe>,
    pub dict: Vec<Fe>,
}
impl Pool {
    pub fn new(dict: Vec<Fe>) -> Pool {
        let mut core = vec![Fe::ZERO, Fe::ONE, -Fe::ONE];
        for i in 2..=18u64 {
            core.push(Fe::from_u64(i));
            core.push(-Fe::from_u64(i));
        }
        let mut all = core.clone();
        let two = Fe::from_u64(2);
        let half = two.inv().unwrap();
        all.push(half);
        all.push(-half);
        // powers of two and neighbours, and their negatives
        let mut x = Fe::ONE;
        for i in 0..256 {
            if i % 8 == 0 || i % 32 >= 30 || i > 245 || i % 64 < 3 {
                for y in [x, x - Fe::ONE, x + Fe::ONE] {
                    all.push(y);
                    all.push(-y);
                }
            }
            x = x * two;
        }
        // limb extremes, as integers and as Montgomery representations
        for m in 1u32..81 {
            let mut l = [0u64; 4];
            let mut mm = m;
            for q in l.iter_mut() {
                *q = match mm % 3 {
                    0 => 0,
                    1 => u64::MAX,
                    _ => 1 << 63,
                };
                mm /= 3;
            }
            l[3] &= 0x0fff_ffff_ffff_ffff;
            all.push(Fe::from_int(l));
            all.push(Fe::from_mont(l));
        }
        for m in 1u32..256 {
            if m % 5 != 0 {
                continue;
            }
            let mut l = [0u64; 4];
            for b in 0..8 {
                if m >> b & 1 == 1 {
                    l[b / 2] |= 0xffff_ffffu64 << (32 * (b % 2));
                }
            }
            l[3] &= 0x0fff_ffff_ffff_ffff;
            all.push(Fe::from_int(l));
            all.push(Fe::from_mont(l));
        }
        // representations close to the modulus
        for d in 1..5u64 {
            all.push(Fe::from_mont([P[0] - d, P[1], P[2], P[3]]));
            all.push(Fe::from_mont([P[0], P[1], P[2], P[3] - d]));
            all.push(Fe::from_int([P[0], P[1] - d, P[2], P[3]]));
        }
        // roots of unity of small order, small inverses, and values whose 17th power is special
        let pm1 = crate::rf::big::p_minus_1();
        for o in [2u64, 3, 4, 5, 6, 7, 8, 11, 13, 16, 17, 32, 64, 1024] {
            if crate::rf::big::rem_small(&pm1, o) == 0 {
                let e = crate::rf::big::div_small(&pm1, o);
                let g = Fe::from_u64(22).pow_big(&e);
                all.push(g);
            }
            all.push(Fe::from_u64(o).inv().unwrap());
        }
        let d17 = crate::rf::big::inv_mod_pm1(17);
        for s in [2u64, 3, 7, 17] {
            all.push(Fe::from_u64(s).pow_big(&d17));
        }
        for b in [0xffu64, 0x7f, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x1_0000_0000, 0xdeadbeef, 377, 1 << 32, u64::MAX] {
            all.push(Fe::from_u64(b));
            all.push(-Fe::from_u64(b));
        }
        for d in &dict {
            all.push(*d);
        }
        Pool { all, core, dict }
    }
    /// One word: a mixture of uniform, hostile and structured values.
    pub fn word(&self, r: &mut Rng) -> Fe {
        match r.below(12) {
            0..=2 => *r.pick(&self.all),
            3 => *r.pick(&self.core),
            4 => Fe::from_u64(r.u64() >> r.below(64)),
            5 => {
                // random integer with some limbs blanked
                let mut l = [r.u64(), r.u64(), r.u64(), r.u64() >> 4];
                for q in l.iter_mut() {
                    match r.below(4) {
                        0 => *q = 0,
                        1 => *q = u64::MAX >> 4,
                        _ => {}
                    }
                }
                if r.chance(1, 2) {
                    Fe::from_int(l)
                } else {
                    Fe::from_mont(l)
                }
            }
            6 => -Fe::from_u64(r.u64() >> r.below(64)),
            7 if !self.dict.is_empty() => *r.pick(&self.dict),
            _ => r.fe(),
        }
    }
}

/// Makes some words simple functions of other words.
pub fn relate(v: &mut [Fe], r: &mut Rng, pool: &Pool) {
    let t = v.len();
    for _ in 0..1 + r.below(3) {
        let (i, j, k) = match r.below(3) {
            // neighbours, in either direction
            0 if t > 1 => {
                let i = r.below(t - 1);
                if r.chance(1, 2) {
                    (i + 1, i, r.below(t))
                } else {
                    (i, i + 1, r.below(t))
                }
            }
            _ => (r.below(t), r.below(t), r.below(t)),
        };
        let (x, y) = (v[j], v[k]);
        v[i] = match r.below(14) {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            3 => x.inv().unwrap_or(Fe::ZERO),
            4 => x * x,
            5 => x + Fe::ONE,
            6 => x + x,
            7 => -x,
            8 => x.pow_u64(17),
            9 => x,
            10 => -(v.iter().fold(Fe::ZERO, |a, b| a + *b) - v[i]),
            // the same words but for some limbs of their encoding or of their representation
            11 | 12 => {
                let mont = r.chance(1, 2);
                let (a, b) = if mont { (x.0, v[i].0) } else { (x.to_int(), v[i].to_int()) };
                let mut l = [0u64; 4];
                let m = 1 + r.below(14);
                for k in 0..4 {
                    l[k] = if m >> k & 1 == 1 { a[k] } else { b[k] };
                }
                // below the modulus, whatever was mixed
                if l[3] >= P[3] {
                    l[3] = P[3] - 1;
                }
                if mont {
                    Fe::from_mont(l)
                } else {
                    Fe::from_int(l)
                }
            }
            _ => x * *r.pick(&pool.core) + *r.pick(&pool.core),
        };
    }
}

/// Inputs for a given domain separator that make the states at the first or the second S-box layer special:
/// zero or hostile words, words that are simple functions of one another.
pub fn aimed(r: &mut Rng, pool: &Pool, b: &crate::spec::Base, ds: Fe) -> Vec<Fe> {
    let t = b.t;
    let c = |k: usize, i: usize| b.arc.at(k, i);
    let mut s: Vec<Fe> = (0..t).map(|_| r.fe()).collect();
    s[0] = ds + c(0, 0);
    let fixed = s[0];
    if t == 2 || b.rf < 4 || r.chance(1, 2) {
        match r.below(4) {
            0 => s[1 + r.below(t - 1)] = Fe::ZERO,
            1 => {
                for x in s[1..].iter_mut() {
                    if r.chance(1, 2) {
                        *x = *r.pick(&pool.all);
                    }
                }
            }
            2 => {
                let a = if r.chance(1, 2) { fixed } else { r.fe() };
                for x in s[1..].iter_mut() {
                    *x = a;
                }
            }
            _ => {
                relate(&mut s, r, pool);
                s[0] = fixed;
                let (i, j) = (1 + r.below(t - 1), r.below(t));
                s[i] = match r.below(4) {
                    0 => -s[j],
                    1 => s[j].pow_u64(17),
                    _ => s[j],
                };
            }
        }
    } else if let Some(d) = b.sbox.inv_exp() {
        let mut u: Vec<Fe> = s.iter().map(|x| b.sbox.eval(*x)).collect();
        let z = |u: &[Fe], i: usize| (0..t).fold(c(1, i), |a, j| a + b.mds.at(i, j) * u[j]);
        let (i, k, j) = (r.below(t), r.below(t), 1 + r.below(t - 1));
        let (gap, slope) = match r.below(3) {
            0 if i != k => (z(&u, k) - z(&u, i), b.mds.at(i, j) - b.mds.at(k, j)),
            1 => (*r.pick(&pool.all) - z(&u, i), b.mds.at(i, j)),
            _ => (-z(&u, i), b.mds.at(i, j)),
        };
        if let Some(x) = slope.inv() {
            u[j] = u[j] + gap * x;
            s[j] = u[j].pow_big(&d);
        }
    }
    (1..t).map(|i| s[i] - c(0, i)).collect()
}

/// Generates input states for a permutation of width t.
pub struct StateGen<'a> {
    pub pool: &'a Pool,
    pub plans: Vec<&'a Plan>,
    pub prev: Vec<Fe>,
    pub outs: Vec<Fe>,
}
pub const MODES: [&str; 13] = [
    "uniform", "mixed", "hostile", "one-hostile", "structured", "target-plain", "target-opt", "sibling", "chained", "small", "sparse", "dict", "related",
];
impl<'a> StateGen<'a> {
    pub fn new(pool: &'a Pool, plans: Vec<&'a Plan>) -> Self {
        StateGen { pool, plans, prev: Vec::new(), outs: Vec::new() }
    }
    pub fn note_output(&mut self, o: Fe) {
        if self.outs.len() < 32 {
            self.outs.push(o);
        } else {
            let i = (o.0[0] % 32) as usize;
            self.outs[i] = o;
        }
    }
    fn target(&self, r: &mut Rng, plan: &Plan) -> Vec<Fe> {
        let t = plan.t;
        let max = if plan.can_invert() { plan.layers.len() } else { plan.first_sbox() };
        // aim just before (or after) a random layer, preferring S-boxes
        let mut k = r.below(max + 1);
        if r.chance(3, 4) {
            while k < max && !matches!(plan.layers[k], Layer::Full | Layer::Partial) {
                k += 1;
            }
        }
        let mut s: Vec<Fe> = (0..t).map(|_| r.fe()).collect();
        match r.below(9) {
            6 => {
                // all words equal, or all but one
                let a = if r.chance(1, 2) { r.fe() } else { self.pool.word(r) };
                let i = r.below(t + 1);
                for (j, x) in s.iter_mut().enumerate() {
                    if j != i || i == 0 {
                        *x = a;
                    }
                }
            }
            7 | 8 => relate(&mut s, r, self.pool),
            0 => {
                let i = r.below(t);
                s[i] = Fe::ZERO;
            }
            1 => s[0] = *r.pick(&self.pool.all),
            2 => {
                for x in s.iter_mut() {
                    *x = *r.pick(&self.pool.core);
                }
            }
            3 => s = vec![Fe::ZERO; t],
            4 => {
                for x in s.iter_mut() {
                    if r.chance(1, 2) {
                        *x = self.pool.word(r);
                    }
                }
            }
            _ => {
                let i = r.below(t);
                s[i] = *r.pick(&self.pool.core);
                s[0] = if r.chance(1, 2) { Fe::ZERO } else { s[0] };
            }
        }
        plan.back(&s, k)
    }
    pub fn next(&mut self, r: &mut Rng) -> (Vec<Fe>, usize) {
        let t = self.plans[0].t;
        let mode = match r.below(64) {
            0..=19 => 0,
            20..=23 => 12,
            24..=29 => 1,
            30..=32 => 2,
            33..=36 => 3,
            37..=40 => 4,
            41..=43 => 5,
            44..=45 => 6,
            46..=51 => 7,
            52..=55 => 8,
            56..=57 => 9,
            58..=60 => 10,
            _ => 11,
        };
        let s: Vec<Fe> = match mode {
            0 => (0..t).map(|_| r.fe()).collect(),
            1 => (0..t).map(|_| self.pool.word(r)).collect(),
            2 => (0..t).map(|_| *r.pick(&self.pool.all)).collect(),
            3 => {
                let mut v: Vec<Fe> = (0..t).map(|_| r.fe()).collect();
                let i = r.below(t);
                v[i] = *r.pick(&self.pool.all);
                v
            }
            4 => {
                let a = self.pool.word(r);
                let b = self.pool.word(r);
                match r.below(9) {
                    0 => vec![a; t],
                    1 => (0..t).map(|i| a + b * Fe::from_u64(i as u64)).collect(),
                    2 => (0..t).map(|i| if i % 2 == 0 { a } else { -a }).collect(),
                    3 => (0..t).map(|i| if i == 0 { a } else { b }).collect(),
                    4 => {
                        let mut v: Vec<Fe> = (0..t).map(|_| r.fe()).collect();
                        let i = r.below(t);
                        let j = r.below(t);
                        v[i] = v[j];
                        v
                    }
                    5 => {
                        let mut v: Vec<Fe> = (0..t).map(|_| r.fe()).collect();
                        let i = r.below(t);
                        let j = r.below(t);
                        if i != j {
                            v[i] = -v[j];
                        }
                        v
                    }
                    6 => {
                        let mut v: Vec<Fe> = (0..t).map(|_| r.fe()).collect();
                        v.sort_by_key(|x| {
                            let i = x.to_int();
                            [i[3], i[2], i[1], i[0]]
                        });
                        if r.chance(1, 2) {
                            v.reverse();
                        }
                        v
                    }
                    7 => {
                        // words summing to zero / geometric progression
                        let mut v: Vec<Fe> = (0..t).map(|_| r.fe()).collect();
                        let s = v[1..].iter().fold(Fe::ZERO, |x, y| x + *y);
                        v[0] = -s;
                        v
                    }
                    _ => {
                        let mut x = a;
                        (0..t)
                            .map(|_| {
                                x = x * b;
                                x
                            })
                            .collect()
                    }
                }
            }
            5 | 6 => {
                let p = self.plans[(mode - 5) % self.plans.len()];
                self.target(r, p)
            }
            7 if self.prev.len() == t => {
                let mut v = self.prev.clone();
                let i = r.below(t);
                match r.below(9) {
                    0 => v[i] = r.fe(),
                    1 => {
                        let k = r.below(4);
                        let mut l = v[i].0;
                        l[k] = r.u64();
                        v[i] = Fe::from_mont(l);
                    }
                    2 => {
                        let k = r.below(4);
                        let mut l = v[i].to_int();
                        l[k] ^= 1 << r.below(60);
                        v[i] = Fe::from_int(l);
                    }
                    3 => {
                        let j = r.below(t);
                        v.swap(i, j);
                    }
                    4 => v[i] = -v[i],
                    5 => v[i] = Fe::ZERO,
                    6 => v[i] = v[i] + Fe::ONE,
                    7 => {} // the very same input again
                    _ => {
                        for x in v.iter_mut() {
                            *x = if r.chance(1, 2) { r.fe() } else { *x };
                        }
                    }
                }
                v
            }
            8 if !self.outs.is_empty() => (0..t)
                .map(|_| if r.chance(2, 3) { *r.pick(&self.outs) } else { self.pool.word(r) })
                .collect(),
            9 => {
                let k = r.below(64);
                (0..t).map(|_| Fe::from_u64(r.u64() >> k)).collect()
            }
            10 => {
                let mut v = vec![Fe::ZERO; t];
                for _ in 0..1 + r.below(2) {
                    let i = r.below(t);
                    v[i] = self.pool.word(r);
                }
                v
            }
            11 if !self.pool.dict.is_empty() => {
                let d = *r.pick(&self.pool.dict);
                match r.below(3) {
                    0 => (0..t).map(|_| *r.pick(&self.pool.dict)).collect(),
                    1 => {
                        let mut v: Vec<Fe> = (0..t).map(|_| r.fe()).collect();
                        let i = r.below(t);
                        v[i] = d;
                        v
                    }
                    _ => (0..t).map(|_| if r.chance(1, 2) { d } else { self.pool.word(r) }).collect(),
                }
            }
            12 => {
                // words that are simple functions of one another
                let mut v: Vec<Fe> = (0..t).map(|_| if r.chance(2, 3) { r.fe() } else { self.pool.word(r) }).collect();
                relate(&mut v, r, self.pool);
                v
            }
            _ => (0..t).map(|_| self.pool.word(r)).collect(),
        };
        self.prev = s.clone();
        (s, mode)
    }
}

/// Random matrices with hostile structure.
pub const MKINDS: [&str; 12] = [
    "uniform", "small", "sparse", "triangular", "permutation", "rank-deficient", "zero-pivots", "hostile", "diagonal", "cauchy-like", "near-singular", "zero/identity",
];
pub fn matrix(r: &mut Rng, pool: &Pool, rows: usize, cols: usize) -> (Mat, usize) {
    let kind = r.below(MKINDS.len());
    let mut m = Mat::zero(rows, cols);
    match kind {
        0 => {
            for x in m.d.iter_mut() {
                *x = r.fe();
            }
        }
        1 => {
            for x in m.d.iter_mut() {
                *x = Fe::from_i64(r.below(5) as i64 - 2);
            }
        }
        2 => {
            for x in m.d.iter_mut() {
                *x = if r.chance(1, 3) { pool.word(r) } else { Fe::ZERO };
            }
        }
        3 => {
            let lower = r.chance(1, 2);
            for i in 0..rows {
                for j in 0..cols {
                    if i == j || (lower && j < i) || (!lower && j > i) {
                        *m.at_mut(i, j) = pool.word(r);
                    }
                }
            }
        }
        4 => {
            let n = rows.max(cols);
            let mut p: Vec<usize> = (0..n).collect();
            r.shuffle(&mut p);
            for i in 0..rows {
                if p[i] < cols {
                    *m.at_mut(i, p[i]) = if r.chance(1, 2) { Fe::ONE } else { pool.word(r) };
                }
            }
        }
        5 => {
            for x in m.d.iter_mut() {
                *x = if r.chance(1, 2) { r.fe() } else { Fe::from_u64(r.below(4) as u64) };
            }
            // make one row (or column) a combination of others
            if rows > 1 && r.chance(1, 2) {
                let i = r.below(rows);
                let a = (i + 1) % rows;
                let b = (i + 2) % rows;
                let (f, g) = (pool.word(r), if b == i { Fe::ZERO } else { pool.word(r) });
                for j in 0..cols {
                    let v = m.at(a, j) * f + m.at(b, j) * g;
                    *m.at_mut(i, j) = v;
                }
            } else if cols > 1 {
                let i = r.below(cols);
                let a = (i + 1) % cols;
                let f = pool.word(r);
                for j in 0..rows {
                    let v = m.at(j, a) * f;
                    *m.at_mut(j, i) = v;
                }
            } else {
                for x in m.d.iter_mut() {
                    *x = Fe::ZERO;
                }
            }
        }
        6 => {
            for x in m.d.iter_mut() {
                *x = r.fe();
            }
            let k = 1 + r.below(rows.min(cols));
            for i in 0..k {
                for j in 0..k {
                    if i + j < k {
                        *m.at_mut(i, j) = Fe::ZERO;
                    }
                }
            }
        }
        7 => {
            for x in m.d.iter_mut() {
                *x = pool.word(r);
            }
        }
        8 => {
            for i in 0..rows.min(cols) {
                *m.at_mut(i, i) = pool.word(r);
            }
        }
        9 => {
            let off = r.below(50) as u64;
            for i in 0..rows {
                for j in 0..cols {
                    *m.at_mut(i, j) = Fe::from_u64((i + rows + j) as u64 + off).inv().unwrap();
                }
            }
        }
        10 => {
            for x in m.d.iter_mut() {
                *x = r.fe();
            }
            if rows > 1 {
                let f = pool.word(r);
                for j in 0..cols {
                    let v = m.at(0, j) * f;
                    *m.at_mut(rows - 1, j) = v;
                }
                if r.chance(1, 2) {
                    let j = r.below(cols);
                    *m.at_mut(rows - 1, j) += Fe::ONE;
                }
            }
        }
        _ => {
            if r.chance(1, 2) {
                for i in 0..rows.min(cols) {
                    *m.at_mut(i, i) = Fe::ONE;
                }
            }
            if r.chance(1, 2) {
                let i = r.below(rows);
                let j = r.below(cols);
                *m.at_mut(i, j) = pool.word(r);
            }
        }
    }
    (m, kind)
}
