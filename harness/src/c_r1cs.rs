//! C07-C10: the circuit gadgets.
use crate::bridge::*;
use crate::c_gen::random_params;
use crate::dynp::*;
use crate::gen::*;
use crate::rep::*;
use crate::rf::{big, Fe};
use crate::spec::*;
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisError, SynthesisMode};
use decaf377::r1cs::FqVar;

pub fn gadget_hash(cs: ConstraintSystemRef<Fq>, v: &[FqVar]) -> Result<FqVar, SynthesisError> {
    use poseidon377::r1cs::*;
    let d = &v[0];
    let w = |i: usize| v[i].clone();
    match v.len() {
        2 => hash_1(cs, d, w(1)),
        3 => hash_2(cs, d, (w(1), w(2))),
        4 => hash_3(cs, d, (w(1), w(2), w(3))),
        5 => hash_4(cs, d, (w(1), w(2), w(3), w(4))),
        6 => hash_5(cs, d, (w(1), w(2), w(3), w(4), w(5))),
        7 => hash_6(cs, d, (w(1), w(2), w(3), w(4), w(5), w(6))),
        8 => hash_7(cs, d, (w(1), w(2), w(3), w(4), w(5), w(6), w(7))),
        _ => panic!("harness: arity"),
    }
}

/// How an input of a gadget comes about.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Const,
    Witness,
    Input,
    /// 3 a - b + c with witnesses a, b
    Lc,
    /// witness plus constant
    Shift,
    /// constant times input
    Scale,
    /// product of two witnesses
    Product,
    /// the same variable as the previous word (falls back to a witness)
    Same,
    /// a - a + constant: a variable whose value is fixed
    Fixed,
    /// minus a witness
    Neg,
    /// witness plus twice the previous word
    Sum,
}
pub const KINDS: [Kind; 11] = [Kind::Const, Kind::Witness, Kind::Input, Kind::Lc, Kind::Shift, Kind::Scale, Kind::Product, Kind::Same, Kind::Fixed, Kind::Neg, Kind::Sum];

/// Allocate one word. In setup mode the values are not looked at.
fn alloc(cs: &ConstraintSystemRef<Fq>, k: Kind, val: Fe, aux: &mut Rng, prev: Option<&(FqVar, Fe)>) -> (FqVar, Fe) {
    let wit = |x: Fe| FqVar::new_witness(cs.clone(), || Ok(fq(x))).expect("harness: witness");
    let inp = |x: Fe| FqVar::new_input(cs.clone(), || Ok(fq(x))).expect("harness: input");
    let con = |x: Fe| FqVar::new_constant(cs.clone(), fq(x)).expect("harness: constant");
    match k {
        Kind::Const => (con(val), val),
        Kind::Witness => (wit(val), val),
        Kind::Input => (inp(val), val),
        Kind::Lc => {
            let a = aux.fe();
            let c = Fe::from_u64(aux.below(100) as u64);
            let three = Fe::from_u64(3);
            let b = three * a + c - val;
            let x = wit(a) * fq(three) - wit(b) + fq(c);
            (x, val)
        }
        Kind::Shift => {
            let c = aux.fe();
            (wit(val - c) + fq(c), val)
        }
        Kind::Scale => {
            let c = aux.fe();
            let c = if c.is_zero() { Fe::ONE } else { c };
            (inp(val * c.inv().unwrap()) * fq(c), val)
        }
        Kind::Product => {
            let c = aux.fe();
            let c = if c.is_zero() { Fe::ONE } else { c };
            (wit(val * c.inv().unwrap()) * wit(c), val)
        }
        Kind::Same => match prev {
            Some(p) => p.clone(),
            None => (wit(val), val),
        },
        Kind::Fixed => {
            let a = wit(aux.fe());
            (a.clone() - a + fq(val), val)
        }
        Kind::Neg => (wit(-val).negate().expect("harness: negate"), val),
        Kind::Sum => match prev {
            Some((p, v)) => (wit(val - *v - *v) + p.double().expect("harness: double"), val),
            None => (wit(val), val),
        },
    }
}

fn pick_kinds(r: &mut Rng, n: usize) -> Vec<Kind> {
    match r.below(8) {
        0 => vec![Kind::Const; n],
        1 => vec![Kind::Witness; n],
        2 => vec![Kind::Input; n],
        3 => (0..n).map(|i| if i == 0 { Kind::Const } else { Kind::Witness }).collect(),
        4 => (0..n).map(|_| *r.pick(&[Kind::Const, Kind::Witness])).collect(),
        _ => (0..n).map(|_| *r.pick(&KINDS)).collect(),
    }
}

fn value(x: &FqVar) -> Result<Fe, String> {
    match guard(|| x.value()) {
        Ok(Ok(v)) => Ok(fe(&v)),
        Ok(Err(e)) => Err(format!("value() reports {:?}", e)),
        Err(e) => Err(format!("value() panicked: {}", e)),
    }
}

/// C07
pub fn c07(ctx: &Ctx, refs: &[Ref]) -> Tally {
    parallel(ctx, |c, r, t| {
        if c % 4 == 3 {
            return c07_general(ctx, r, t);
        }
        let goal = *r.pick(&[OptimizationGoal::None, OptimizationGoal::Constraints, OptimizationGoal::Weight]);
        let with_cs = !r.chance(1, 8);
        let cs = if with_cs { ConstraintSystem::<Fq>::new_ref() } else { ConstraintSystemRef::None };
        if with_cs {
            cs.set_optimization_goal(goal);
        }
        let construct = r.chance(1, 2);
        if with_cs {
            cs.set_mode(SynthesisMode::Prove { construct_matrices: construct });
        }
        let mut vars: Vec<(FqVar, Fe)> = Vec::new(); // everything so far
        let mut log = format!("goal {:?} construct_matrices {} ", goal, construct);
        let calls = 1 + r.below(3);
        for call in 0..calls {
            let rate = if call == 0 { (c % 7) as usize + 1 } else { 1 + r.below(7) };
            let mut g = StateGen::new(&ctx.pool, vec![&refs[rate - 1].plain]);
            let (inp, _) = g.next(r);
            let kinds = if with_cs { pick_kinds(r, rate + 1) } else { vec![Kind::Const; rate + 1] };
            let mut words: Vec<(FqVar, Fe)> = Vec::new();
            let mut names = Vec::new();
            for (i, v) in inp.iter().enumerate() {
                if !vars.is_empty() && r.chance(1, 4) {
                    let k = r.below(vars.len());
                    words.push(vars[k].clone());
                    names.push(format!("var{}", k));
                } else {
                    let w = alloc(&cs, kinds[i], *v, r, words.last());
                    words.push(w);
                    names.push(format!("{:?}", kinds[i]));
                }
                t.count(&format!("word_{}", names.last().unwrap().trim_end_matches(char::is_numeric)), 1);
            }
            let vals: Vec<Fe> = words.iter().map(|w| w.1).collect();
            log += &format!("; hash_{}({}) of {}", rate, names.join(", "), show(&vals));
            let ins: Vec<FqVar> = words.iter().map(|w| w.0.clone()).collect();
            let native = match guard(|| hash(&fqv(&vals))) {
                Ok(x) => fe(&x),
                Err(_) => {
                    t.count("skipped_native_hash_panics", 1);
                    return;
                }
            };
            let out = match guard(|| gadget_hash(cs.clone(), &ins)) {
                Err(e) => {
                    t.fail(format!("the hash_{} gadget panicked: {}", rate, e), log.clone());
                    return;
                }
                Ok(Err(e)) => {
                    t.fail(format!("the hash_{} gadget reports {:?}", rate, e), log.clone());
                    return;
                }
                Ok(Ok(x)) => x,
            };
            match value(&out) {
                Err(e) => t.fail(format!("hash_{} gadget: {}", rate, e), log.clone()),
                Ok(v) if v != native => t.fail(format!("the hash_{} gadget has the value {} but the native hash is {}", rate, v.hex(), native.hex()), log.clone()),
                _ => {}
            }
            // the inputs still have their values
            for (w, v) in ins.iter().zip(&vals) {
                match value(w) {
                    Ok(x) if x == *v => {}
                    x => t.fail(format!("an input of the hash_{} gadget now has the value {:?}", rate, x), log.clone()),
                }
            }
            // a constant stays a constant exactly when every input is one
            t.eval(key_of(rate as u64 + 10 * call as u64, &vals), true);
            t.count(&format!("rate_{}", rate), 1);
            vars.extend(words);
            if with_cs && r.chance(1, 3) {
                let o = FqVar::new_input(cs.clone(), || Ok(fq(native))).expect("harness: input");
                o.enforce_equal(&out).expect("harness: equality");
            }
            vars.push((out, native));
            if !t.viol.is_empty() {
                return;
            }
        }
        if with_cs {
            let fin = cs.num_constraints() > 600 || r.chance(3, 4);
            if fin {
                cs.finalize();
            }
            // (without matrices there is nothing to evaluate: ark-relations panics)
            match if construct { guard(|| cs.is_satisfied()) } else { Ok(Ok(true)) } {
                Ok(Ok(true)) => {}
                x => {
                    let which = guard(|| cs.which_is_unsatisfied());
                    t.fail(format!("the constraint system is not satisfied by honest values: {:?} ({:?})", x, which), log.clone());
                }
            }
            t.count(if construct { "systems_satisfied" } else { "systems_without_matrices" }, 1);
            t.max("constraints", cs.num_constraints() as u64);
            for (x, v) in &vars {
                match value(x) {
                    Ok(y) if y == *v => {}
                    y => t.fail(format!("a variable ended up with {:?} instead of {}", y, v.hex()), log.clone()),
                }
            }
        }
        t.sample(|| log.clone());
    })
}
fn small_shape(r: &mut Rng) -> (usize, usize, usize) {
    loop {
        let s = *r.pick(SHAPES);
        if s.0 <= 9 && s.0 * s.1 + s.2 <= 140 {
            return s;
        }
    }
}
const CEXPS: [u32; 20] = [1, 2, 3, 4, 5, 6, 7, 9, 11, 15, 16, 17, 31, 33, 257, 300, 65537, 0x80000001, 4294967291, 4294967295];
fn c07_general(ctx: &Ctx, r: &mut Rng, t: &mut Tally) {
    // one in six: the far shapes as well (wide states, hundreds of rounds)
    let shape = if r.below(6) == 0 {
        loop {
            let s = *r.pick(SHAPES);
            if s.0 <= 24 {
                break s;
            }
        }
    } else {
        small_shape(r)
    };
    let (mut b, _, _) = random_params(r, &ctx.pool, shape, &[3, 5, 17], false);
    b.sbox = Sbox::Pow(*r.pick(&CEXPS));
    let o = match derive_opt(&b) {
        Some(o) => o,
        None => return,
    };
    let p = build_shape(&b, &o, *r.pick(&[128, 80, 256, 1]));
    let plan = Plan::plain(&b);
    let mut g = StateGen::new(&ctx.pool, vec![&plan]);
    for _ in 0..3 {
        let (inp, _) = g.next(r);
        let cs = ConstraintSystem::<Fq>::new_ref();
        let kinds = pick_kinds(r, b.t);
        let mut words: Vec<(FqVar, Fe)> = Vec::new();
        for (i, v) in inp.iter().enumerate() {
            let w = alloc(&cs, kinds[i], *v, r, words.last());
            words.push(w);
        }
        let vals: Vec<Fe> = words.iter().map(|w| w.1).collect();
        let want = plan.run(&vals);
        let case = || format!("t={} r_F={} r_P={} exponent {:?} kinds {:?} mds {} state {}", b.t, b.rf, b.rp, b.sbox, kinds, show(&b.mds.d), show(&vals));
        let ins: Vec<FqVar> = words.iter().map(|w| w.0.clone()).collect();
        match guard(|| (p.gadget(cs.clone(), ins.clone()), p.gadget_state(cs.clone(), ins.clone()))) {
            Err(e) => t.fail(format!("the permutation gadget panicked: {}", e), case()),
            Ok((x, st)) => {
                match value(&x) {
                    Ok(v) if v == want[1] => {}
                    v => t.fail(format!("the permutation gadget returns {:?} instead of {}", v, want[1].hex()), case()),
                }
                let got: Vec<Result<Fe, String>> = st.iter().flatten().map(value).collect();
                if st.is_some() && (got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.as_ref() != Ok(b))) {
                    t.fail(format!("the permutation gadget leaves the state {:?} instead of {}", got, show(&want)), case());
                }
            }
        }
        match guard(|| cs.is_satisfied()) {
            Ok(Ok(true)) => {}
            x => t.fail(format!("the constraint system is not satisfied by honest values: {:?}", x), case()),
        }
        t.count("general_gadgets", 1);
        t.count(&format!("general_exponent_{:?}", b.sbox), 1);
        t.eval(key_of(99, &vals), true);
        if !t.viol.is_empty() {
            return;
        }
    }
}

// ---------------------------------------------------------------- recorded systems
/// A recorded constraint system with its rows in reference arithmetic.
pub struct Sys {
    pub ninst: usize,
    pub nwit: usize,
    pub rows: Vec<[Vec<(Fe, usize)>; 3]>,
}
impl Sys {
    pub fn record(cs: &ConstraintSystemRef<Fq>) -> Option<Sys> {
        cs.finalize();
        let m = cs.to_matrices()?;
        let conv = |row: &Vec<(Fq, usize)>| -> Vec<(Fe, usize)> {
            let mut v: Vec<(Fe, usize)> = row.iter().map(|(c, i)| (fe(c), *i)).collect();
            v.sort_by_key(|x| x.1);
            let mut o: Vec<(Fe, usize)> = Vec::new();
            for (c, i) in v {
                match o.last_mut() {
                    Some(l) if l.1 == i => l.0 += c,
                    _ => o.push((c, i)),
                }
            }
            o.retain(|x| !x.0.is_zero());
            o
        };
        let rows = (0..m.a.len()).map(|i| [conv(&m.a[i]), conv(&m.b[i]), conv(&m.c[i])]).collect();
        Some(Sys { ninst: m.num_instance_variables, nwit: m.num_witness_variables, rows })
    }
    pub fn digest(&self) -> u64 {
        let mut h = (self.ninst as u64) << 32 | self.nwit as u64;
        for row in &self.rows {
            for side in row {
                h = h.rotate_left(7) ^ side.len() as u64;
                for (c, i) in side {
                    h = (h ^ key_of(*i as u64, &[*c])).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
                }
            }
        }
        h
    }
}

enum Outcome {
    Out(Fe),
    Conflict,
    GaveUp,
}
struct Attempt<'a> {
    sys: &'a Sys,
    z: Vec<Option<Fe>>,
    done: Vec<bool>,
    branches: usize,
}
enum Step {
    Nothing,
    Progress,
    Conflict,
}
impl<'a> Attempt<'a> {
    fn side(&self, s: &[(Fe, usize)]) -> (Fe, Vec<(Fe, usize)>) {
        let mut k = Fe::ZERO;
        let mut u = Vec::new();
        for (c, i) in s {
            match self.z[*i] {
                Some(v) => k += *c * v,
                None => u.push((*c, *i)),
            }
        }
        (k, u)
    }
    /// sum of terms = rhs
    fn linear(&mut self, row: usize, terms: Vec<(Fe, usize)>, rhs: Fe) -> Step {
        let mut v = terms;
        v.sort_by_key(|x| x.1);
        let mut o: Vec<(Fe, usize)> = Vec::new();
        for (c, i) in v {
            match o.last_mut() {
                Some(l) if l.1 == i => l.0 += c,
                _ => o.push((c, i)),
            }
        }
        o.retain(|x| !x.0.is_zero());
        match o.len() {
            0 => {
                self.done[row] = true;
                if rhs.is_zero() {
                    Step::Progress
                } else {
                    Step::Conflict
                }
            }
            1 => {
                self.z[o[0].1] = Some(rhs * o[0].0.inv().unwrap());
                self.done[row] = true;
                Step::Progress
            }
            _ => Step::Nothing,
        }
    }
    fn step(&mut self, row: usize, r: &mut Rng, branch: bool) -> Step {
        let [a, b, c] = &self.sys.rows[row];
        let (ak, au) = self.side(a);
        let (bk, bu) = self.side(b);
        let (ck, cu) = self.side(c);
        if au.is_empty() && bu.is_empty() {
            return self.linear(row, cu, ak * bk - ck);
        }
        if au.is_empty() {
            let mut t: Vec<(Fe, usize)> = bu.iter().map(|(c, i)| (*c * ak, *i)).collect();
            t.extend(cu.iter().map(|(c, i)| (-*c, *i)));
            return self.linear(row, t, ck - ak * bk);
        }
        if bu.is_empty() {
            let mut t: Vec<(Fe, usize)> = au.iter().map(|(c, i)| (*c * bk, *i)).collect();
            t.extend(cu.iter().map(|(c, i)| (-*c, *i)));
            return self.linear(row, t, ck - ak * bk);
        }
        // one unknown, quadratic
        let x = au[0].1;
        if au.len() == 1 && bu.len() == 1 && bu[0].1 == x && (cu.is_empty() || (cu.len() == 1 && cu[0].1 == x)) {
            let (al, be) = (au[0].0, bu[0].0);
            let ga = cu.first().map(|c| c.0).unwrap_or(Fe::ZERO);
            // al be x^2 + (ak be + bk al - ga) x + ak bk - ck = 0
            let qa = al * be;
            let qb = ak * be + bk * al - ga;
            let qc = ak * bk - ck;
            let disc = qb * qb - Fe::from_u64(4) * qa * qc;
            let s = match sqrt(disc) {
                None => return Step::Conflict,
                Some(s) => s,
            };
            if !s.is_zero() {
                if !branch {
                    return Step::Nothing;
                }
                self.branches += 1;
            }
            let s = if r.chance(1, 2) { s } else { -s };
            self.z[x] = Some((s - qb) * (qa + qa).inv().unwrap());
            self.done[row] = true;
            return Step::Progress;
        }
        if branch && cu.is_empty() && ck.is_zero() && (au.len() == 1 || bu.len() == 1) {
            // a product that must vanish
            let (k, u) = if au.len() == 1 && (bu.len() != 1 || r.chance(1, 2)) { (ak, au) } else { (bk, bu) };
            self.branches += 1;
            self.z[u[0].1] = Some(-k * u[0].0.inv().unwrap());
            return Step::Progress;
        }
        Step::Nothing
    }
    /// Propagate to a fixed point; with `branch`, choices are made when stuck.
    fn run(&mut self, r: &mut Rng, branch: bool) -> Result<(), ()> {
        loop {
            let mut progress = false;
            for row in 0..self.sys.rows.len() {
                if !self.done[row] {
                    match self.step(row, r, false) {
                        Step::Conflict => return Err(()),
                        Step::Progress => progress = true,
                        Step::Nothing => {}
                    }
                }
            }
            if progress {
                continue;
            }
            match self.gauss()? {
                true => continue,
                false => {}
            }
            if !branch {
                return Ok(());
            }
            // quadratic choices first
            let mut any = false;
            for row in 0..self.sys.rows.len() {
                if !self.done[row] {
                    match self.step(row, r, true) {
                        Step::Conflict => return Err(()),
                        Step::Progress => {
                            any = true;
                            break;
                        }
                        Step::Nothing => {}
                    }
                }
            }
            if any {
                continue;
            }
            // then a free variable, preferably one that occurs early in an undecided constraint
            let mut cand: Vec<usize> = Vec::new();
            'o: for row in 0..self.sys.rows.len() {
                if !self.done[row] {
                    for s in &self.sys.rows[row] {
                        for (_, i) in s {
                            if self.z[*i].is_none() {
                                cand.push(*i);
                                if cand.len() >= 6 {
                                    break 'o;
                                }
                            }
                        }
                    }
                    if !cand.is_empty() {
                        break;
                    }
                }
            }
            if cand.is_empty() {
                // unconstrained variables
                for v in self.z.iter_mut() {
                    if v.is_none() {
                        *v = Some(r.fe());
                        self.branches += 1;
                    }
                }
                return Ok(());
            }
            let i = *r.pick(&cand);
            self.z[i] = Some(match r.below(5) {
                0 => Fe::ZERO,
                1 => Fe::ONE,
                _ => r.fe(),
            });
            self.branches += 1;
            if self.branches > 4000 {
                return Ok(());
            }
        }
    }
    /// Joint solution of the linear equations among the undecided constraints.
    fn gauss(&mut self) -> Result<bool, ()> {
        let mut eqs: Vec<(Vec<(Fe, usize)>, Fe)> = Vec::new();
        for row in 0..self.sys.rows.len() {
            if self.done[row] {
                continue;
            }
            let [a, b, c] = &self.sys.rows[row];
            let (ak, au) = self.side(a);
            let (bk, bu) = self.side(b);
            let (ck, cu) = self.side(c);
            let mut t: Vec<(Fe, usize)> = cu.iter().map(|(c, i)| (-*c, *i)).collect();
            if au.is_empty() {
                t.extend(bu.iter().map(|(c, i)| (*c * ak, *i)));
            } else if bu.is_empty() {
                t.extend(au.iter().map(|(c, i)| (*c * bk, *i)));
            } else {
                continue;
            }
            eqs.push((t, ck - ak * bk));
        }
        if eqs.is_empty() || eqs.len() > 400 {
            return Ok(false);
        }
        let mut vars: Vec<usize> = eqs.iter().flat_map(|e| e.0.iter().map(|x| x.1)).collect();
        vars.sort();
        vars.dedup();
        let n = vars.len();
        if n > 600 {
            return Ok(false);
        }
        let mut m: Vec<Vec<Fe>> = eqs
            .iter()
            .map(|(t, rhs)| {
                let mut v = vec![Fe::ZERO; n + 1];
                for (c, i) in t {
                    v[vars.binary_search(i).unwrap()] += *c;
                }
                v[n] = *rhs;
                v
            })
            .collect();
        let mut rank = 0;
        for j in 0..n {
            let p = match (rank..m.len()).find(|&i| !m[i][j].is_zero()) {
                None => continue,
                Some(p) => p,
            };
            m.swap(rank, p);
            let iv = m[rank][j].inv().unwrap();
            for x in m[rank].iter_mut() {
                *x *= iv;
            }
            for i in 0..m.len() {
                if i != rank && !m[i][j].is_zero() {
                    let f = m[i][j];
                    for k in 0..=n {
                        let y = m[rank][k];
                        m[i][k] -= f * y;
                    }
                }
            }
            rank += 1;
        }
        let mut progress = false;
        for row in &m {
            let nz: Vec<usize> = (0..n).filter(|&j| !row[j].is_zero()).collect();
            if nz.is_empty() && !row[n].is_zero() {
                return Err(());
            }
            if nz.len() == 1 {
                self.z[vars[nz[0]]] = Some(row[n] * row[nz[0]].inv().unwrap());
                progress = true;
            }
        }
        Ok(progress)
    }
}
fn sqrt(x: Fe) -> Option<Fe> {
    // Tonelli-Shanks; p - 1 = q 2^s
    if x.is_zero() {
        return Some(x);
    }
    let mut q = big::p_minus_1();
    let mut s = 0;
    while q[0] & 1 == 0 {
        q = big::div_small(&q, 2);
        s += 1;
    }
    let half = big::div_small(&big::p_minus_1(), 2);
    if x.pow_big(&half) != Fe::ONE {
        return None;
    }
    let mut n = Fe::from_u64(2);
    while n.pow_big(&half) == Fe::ONE {
        n += Fe::ONE;
    }
    let mut c = n.pow_big(&q);
    let mut t = x.pow_big(&q);
    let mut q1 = q;
    q1[0] += 1; // q odd: no carry beyond the lowest limb unless it is all ones
    let mut r = x.pow_big(&big::div_small(&q1, 2));
    let mut m = s;
    while t != Fe::ONE {
        let mut i = 0;
        let mut u = t;
        while u != Fe::ONE {
            u = u.sq();
            i += 1;
        }
        let mut b = c;
        for _ in 0..m - i - 1 {
            b = b.sq();
        }
        m = i;
        c = b.sq();
        t *= c;
        r *= b;
    }
    debug_assert!(r.sq() == x);
    Some(r)
}

/// Which output values do the constraints admit?
fn admitted(sys: &Sys, known: &[(usize, Fe)], out: usize, honest: Fe, r: &mut Rng, t: &mut Tally) -> Outcome {
    let fresh = || {
        let mut z = vec![None; sys.ninst + sys.nwit];
        z[0] = Some(Fe::ONE);
        for (i, v) in known {
            z[*i] = Some(*v);
        }
        Attempt { sys, z, done: vec![false; sys.rows.len()], branches: 0 }
    };
    let mut a = fresh();
    if a.run(r, false).is_err() {
        return Outcome::Conflict;
    }
    if let Some(v) = a.z[out] {
        // forced; the rest must be satisfiable, which the honest witness shows if v is the honest value
        if v == honest || a.done.iter().all(|d| *d) {
            return Outcome::Out(v);
        }
    }
    t.count("not_determined_by_propagation", 1);
    let mut found: Option<Fe> = None;
    for _ in 0..60 {
        let mut a = fresh();
        if a.run(r, true).is_err() || a.z.iter().any(|v| v.is_none()) {
            continue;
        }
        // confirm on the recorded system itself
        let z: Vec<Fe> = a.z.iter().map(|v| v.unwrap()).collect();
        let ev = |s: &[(Fe, usize)]| s.iter().fold(Fe::ZERO, |k, (c, i)| k + *c * z[*i]);
        if sys.rows.iter().all(|[a, b, c]| ev(a) * ev(b) == ev(c)) {
            t.count("alternative_witnesses", 1);
            found = Some(z[out]);
            if z[out] != honest {
                return Outcome::Out(z[out]);
            }
        }
    }
    match found {
        Some(v) => Outcome::Out(v),
        None => Outcome::GaveUp,
    }
}

/// One circuit to record: domain separator and inputs of the given kinds, output bound to a public input.
struct Shape {
    rate: usize, // 0: general parameters
    kinds: Vec<Kind>,
}
/// What a circuit contains before the gadget: products of witnesses, public inputs, linear combinations
/// and whole hashes, in the given numbers; `at` is where the gadget begins.
#[derive(Default)]
struct Before {
    products: usize,
    inputs: usize,
    sums: usize,
    hashes: usize,
    at: std::cell::Cell<(usize, usize, usize)>,
}
impl Before {
    fn next(r: &mut Rng, most: usize) -> Before {
        let size = |r: &mut Rng, most: usize| {
            let bits = (usize::BITS - most.leading_zeros()) as usize;
            let k = r.below(bits + 1);
            if k == 0 { 0 } else { r.below(1 << k).min(most) }
        };
        let mut b = Before::default();
        match r.below(6) {
            0 => b.products = 1 + r.below(7),
            1 => b.products = size(r, most),
            2 => b.hashes = 1 + size(r, most / 2048),
            3 => {
                b.inputs = size(r, most / 64);
                b.sums = size(r, most / 16);
            }
            4 => b.products = most / 2 + r.below(most / 2 + 1),
            _ => {
                b.products = size(r, most / 4);
                b.inputs = size(r, 64);
                b.sums = size(r, 64);
                b.hashes = r.below(3);
            }
        }
        b
    }
    fn lay(&self, cs: &ConstraintSystemRef<Fq>, setup: bool) -> Result<(), String> {
        let e = |e: SynthesisError| e.to_string();
        let wit = |i: usize| FqVar::new_witness(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(fq(Fe::from_u64(i as u64 + 5))) });
        let mut acc = wit(0).map_err(e)?;
        for i in 0..self.products {
            acc = acc * wit(i + 1).map_err(e)?;
        }
        for i in 0..self.inputs {
            let x = FqVar::new_input(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(fq(Fe::from_u64(i as u64 + 3))) }).map_err(e)?;
            acc = x;
        }
        let mut sum = wit(3).map_err(e)?;
        for i in 0..self.sums {
            sum = sum + &acc + fq(Fe::from_u64(i as u64));
            if i % 16 == 15 {
                acc = sum;
                sum = wit(i).map_err(e)?;
            }
        }
        for i in 0..self.hashes {
            let mut w = vec![acc.clone()];
            for j in 0..1 + i % 7 {
                w.push(wit(j).map_err(e)?);
            }
            acc = guard(|| gadget_hash(cs.clone(), &w)).map_err(|e| format!("panic: {}", e))?.map_err(e)?;
        }
        self.at.set((cs.num_instance_variables(), cs.num_witness_variables(), cs.num_constraints()));
        Ok(())
    }
}
/// Synthesise; returns the recorded system, the positions of the gadget's input variables and of the output.
fn synth(
    call: &dyn Fn(ConstraintSystemRef<Fq>, &[FqVar]) -> Result<FqVar, SynthesisError>,
    kinds: &[Kind],
    vals: &[Fe],
    out: Fe,
    mode: SynthesisMode,
    goal: OptimizationGoal,
    before: Option<&Before>,
) -> Result<(Sys, Vec<Option<usize>>, usize, ConstraintSystemRef<Fq>), String> {
    let cs = ConstraintSystem::<Fq>::new_ref();
    cs.set_optimization_goal(goal);
    cs.set_mode(mode);
    let setup = mode == SynthesisMode::Setup;
    if let Some(b) = before {
        b.lay(&cs, setup)?;
    }
    let mut words = Vec::new();
    let mut pos = Vec::new();
    for (k, v) in kinds.iter().zip(vals) {
        let get = || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(fq(*v)) };
        match k {
            Kind::Witness => {
                pos.push(Some((false, cs.num_witness_variables())));
                words.push(FqVar::new_witness(cs.clone(), get).map_err(|e| e.to_string())?);
            }
            Kind::Input => {
                pos.push(Some((true, cs.num_instance_variables())));
                words.push(FqVar::new_input(cs.clone(), get).map_err(|e| e.to_string())?);
            }
            Kind::Same if !words.is_empty() => {
                pos.push(None);
                let w: FqVar = words[words.len() - 1].clone();
                words.push(w);
            }
            Kind::Shift => {
                pos.push(Some((false, cs.num_witness_variables())));
                let w = FqVar::new_witness(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(fq(*v - Fe::from_u64(9))) }).map_err(|e| e.to_string())?;
                words.push(w + fq(Fe::from_u64(9)));
            }
            Kind::Sum if !words.is_empty() => {
                pos.push(Some((false, cs.num_witness_variables())));
                let last: FqVar = words[words.len() - 1].clone();
                let before = vals[words.len() - 1];
                let w = FqVar::new_witness(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(fq(*v - before - before)) }).map_err(|e| e.to_string())?;
                words.push(w + last.double().map_err(|e| e.to_string())?);
            }
            _ => {
                pos.push(None);
                words.push(FqVar::new_constant(cs.clone(), fq(*v)).map_err(|e| e.to_string())?);
            }
        }
    }
    let res = guard(|| call(cs.clone(), &words)).map_err(|e| format!("panic: {}", e))?.map_err(|e| e.to_string())?;
    let opos = cs.num_instance_variables();
    let o = FqVar::new_input(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(fq(out)) }).map_err(|e| e.to_string())?;
    o.enforce_equal(&res).map_err(|e| e.to_string())?;
    let sys = guard(|| Sys::record(&cs)).map_err(|e| format!("panic: {}", e))?.ok_or("no matrices")?;
    let idx = pos.iter().map(|p| p.map(|(inst, i)| if inst { i } else { sys.ninst + i })).collect();
    Ok((sys, idx, opos, cs))
}
fn effective(kinds: &[Kind], vals: &[Fe]) -> Vec<Fe> {
    let mut v: Vec<Fe> = Vec::new();
    for (i, k) in kinds.iter().enumerate() {
        v.push(if *k == Kind::Same && i > 0 { v[i - 1] } else { vals[i] });
    }
    v
}
fn rec_kinds(r: &mut Rng, n: usize) -> Vec<Kind> {
    let mut v: Vec<Kind> = match r.below(5) {
        0 => (0..n).map(|i| if i == 0 { Kind::Const } else { Kind::Witness }).collect(),
        1 => vec![Kind::Witness; n],
        2 => vec![Kind::Input; n],
        _ => (0..n).map(|_| *r.pick(&[Kind::Const, Kind::Witness, Kind::Input, Kind::Witness, Kind::Shift, Kind::Same, Kind::Sum])).collect(),
    };
    if v[0] == Kind::Same || v[0] == Kind::Sum {
        v[0] = Kind::Const;
    }
    // repetitions of a constant are constants
    for i in 1..n {
        if v[i] == Kind::Same && v[i - 1] == Kind::Const {
            v[i] = Kind::Const;
        }
    }
    if v.iter().all(|k| *k == Kind::Const) {
        v[n - 1] = Kind::Witness;
    }
    v
}
fn known_inputs(idx: &[Option<usize>], kinds: &[Kind], vals: &[Fe], prefix: usize, ninst: usize) -> Vec<(usize, Fe)> {
    let mut k: Vec<(usize, Fe)> = Vec::new();
    for (i, p) in idx.iter().enumerate() {
        if let Some(p) = p {
            k.push((
                *p,
                match kinds[i] {
                    Kind::Shift => vals[i] - Fe::from_u64(9),
                    Kind::Sum => vals[i] - vals[i - 1] - vals[i - 1],
                    _ => vals[i],
                },
            ));
        }
    }
    for i in 0..prefix {
        if i == 0 {
            k.push((ninst, Fe::from_u64(5)));
        }
    }
    k
}

/// C08
pub fn c08(ctx: &Ctx, refs: &[Ref]) -> Tally {
    parallel(ctx, |c, r, t| {
        let general = c % 4 == 3;
        let (rate, base, p);
        if general {
            let shape = small_shape(r);
            let (mut b, _, _) = random_params(r, &ctx.pool, shape, &[3, 5, 17], false);
            b.sbox = Sbox::Pow(if r.chance(1, 3) { *r.pick(&CEXPS) } else { *r.pick(&[3u32, 5, 7, 11, 17, 2, 6, 1, 257]) });
            let o = match derive_opt(&b) {
                Some(o) => o,
                None => return,
            };
            p = Some(build_shape(&b, &o, *r.pick(&[128, 80, 256, 1])));
            base = b;
            rate = 0;
        } else {
            rate = (c % 7) as usize + 1;
            base = refs[rate - 1].base.clone();
            p = None;
        }
        let n = base.t;
        let call = |cs: ConstraintSystemRef<Fq>, v: &[FqVar]| -> Result<FqVar, SynthesisError> {
            match &p {
                None => gadget_hash(cs, v),
                Some(p) => Ok(p.gadget(cs, v.to_vec())),
            }
        };
        let plan = Plan::plain(&base);
        let sh = Shape { rate, kinds: rec_kinds(r, n) };
        let goal = *r.pick(&[OptimizationGoal::None, OptimizationGoal::Constraints, OptimizationGoal::Constraints, OptimizationGoal::Weight]);
        let mut g = StateGen::new(&ctx.pool, vec![&plan]);
        let (inp0, _) = g.next(r);
        let vals0 = effective(&sh.kinds, &inp0);
        let desc = format!("{} kinds {:?} goal {:?}", if rate == 0 { format!("general gadget t={} r_F={} r_P={} {:?}", base.t, base.rf, base.rp, base.sbox) } else { format!("hash_{}", rate) }, sh.kinds, goal);
        // recorded for setup; solved under many inputs
        let (sys, idx, out, _) = match synth(&call, &sh.kinds, &vals0, Fe::ZERO, SynthesisMode::Setup, goal, None) {
            Ok(x) => x,
            Err(e) => {
                t.count("setup_synthesis_failed", 1);
                t.notes.push(format!("setup synthesis of {} failed: {}", desc, e));
                if t.notes.len() > 3 {
                    t.notes.pop();
                }
                return;
            }
        };
        t.count("systems_recorded", 1);
        t.max("constraints", sys.rows.len() as u64);
        t.count("constraints_recorded", sys.rows.len() as u64);
        let mut own: Option<(Sys, Vec<Option<usize>>, usize)> = None;
        for i in 0..6 {
            let (mut inp, _) = g.next(r);
            // constants are part of the recorded circuit
            for (j, k) in sh.kinds.iter().enumerate() {
                if *k == Kind::Const || (*k == Kind::Same && j == 0) {
                    inp[j] = vals0[j];
                }
            }
            let vals = effective(&sh.kinds, &inp);
            let native = if rate == 0 {
                plan.run(&vals)[1]
            } else {
                match guard(|| hash(&fqv(&vals))) {
                    Ok(x) => fe(&x),
                    Err(_) => continue,
                }
            };
            let (s, ix, o) = match i {
                1 | 3 => {
                    // the system as synthesised for proving these very values
                    match synth(&call, &sh.kinds, &vals, native, SynthesisMode::Prove { construct_matrices: true }, goal, None) {
                        Ok(x) => {
                            let x = own.insert((x.0, x.1, x.2));
                            t.count("prove_mode_systems", 1);
                            (&x.0, &x.1, x.2)
                        }
                        Err(_) => {
                            t.count("prove_synthesis_failed", 1);
                            continue;
                        }
                    }
                }
                // the system synthesised for proving other values: nothing of them may be left in the constraints
                2 | 4 => match &own {
                    Some(x) => {
                        t.count("solved_for_other_values_than_synthesised_for", 1);
                        (&x.0, &x.1, x.2)
                    }
                    None => continue,
                },
                _ => (&sys, &idx, out),
            };
            let known = known_inputs(ix, &sh.kinds, &vals, 0, s.ninst);
            let case = || format!("{}; inputs {}", desc, show(&vals));
            match admitted(s, &known, o, native, r, t) {
                Outcome::Out(v) if v == native => {
                    t.count("outputs_forced_to_native_hash", 1);
                }
                Outcome::Out(v) => t.fail(
                    format!("the constraints of {} accept the output {} although the native hash is {}", if rate == 0 { "the permutation gadget".to_string() } else { format!("hash_{}", rate) }, v.hex(), native.hex()),
                    case(),
                ),
                Outcome::Conflict => t.fail("the constraints accept no output for these inputs".to_string(), case()),
                Outcome::GaveUp => t.count("undecided", 1),
            }
            t.eval(key_of(rate as u64 + (i << 8), &vals), true);
            if !t.viol.is_empty() {
                return;
            }
        }
        t.count(&format!("rate_{}", rate), 1);
        t.sample(|| format!("{}: {} constraints, {} witness variables, output forced for 6 input assignments", desc, sys.rows.len(), sys.nwit));
    })
}

/// C09
pub fn c09(ctx: &Ctx, refs: &[Ref]) -> Tally {
    parallel(ctx, |c, r, t| {
        // the shipped gadgets, and the permutation gadget under parameters of the caller's own
        let own = if c % 5 == 4 {
            let shape = small_shape(r);
            let (mut b, _, _) = random_params(r, &ctx.pool, shape, &[3, 5, 17], false);
            b.sbox = Sbox::Pow(if r.chance(1, 3) { *r.pick(&CEXPS) } else { *r.pick(&[3u32, 5, 7, 11, 17]) });
            match derive_opt(&b) {
                Some(o) => Some((build_shape(&b, &o, *r.pick(&[128, 80, 256, 1])), Plan::plain(&b), b)),
                None => return,
            }
        } else {
            None
        };
        let rate = (c % 7) as usize + 1;
        let plan = match &own {
            Some(o) => &o.1,
            None => &refs[rate - 1].plain,
        };
        let rate = if own.is_some() { 0 } else { rate };
        let n = match &own {
            Some(o) => o.2.t,
            None => rate + 1,
        };
        let native_of = |v: &[Fe]| -> Result<Fe, String> {
            match &own {
                Some(o) => Ok(o.1.run(v)[1]),
                None => guard(|| fe(&hash(&fqv(v)))),
            }
        };
        let kinds = rec_kinds(r, n);
        let goal = *r.pick(&[OptimizationGoal::None, OptimizationGoal::Constraints, OptimizationGoal::Weight]);
        let mut g = StateGen::new(&ctx.pool, vec![plan]);
        let (first, _) = g.next(r);
        let desc = match &own {
            Some((_, _, b)) => format!("general gadget t={} r_F={} r_P={} {:?} kinds {:?} goal {:?}", b.t, b.rf, b.rp, b.sbox, kinds, goal),
            None => format!("hash_{} kinds {:?} goal {:?}", rate, kinds, goal),
        };
        let call = |cs: ConstraintSystemRef<Fq>, v: &[FqVar]| -> Result<FqVar, SynthesisError> {
            match &own {
                Some(o) => Ok(o.0.gadget(cs, v.to_vec())),
                None => gadget_hash(cs, v),
            }
        };
        let mut seen: Option<(u64, usize, usize, usize, String)> = None;
        let mut counts: Option<(usize, usize, usize)> = None;
        let reps = 5;
        for i in 0..reps {
            let (mut inp, _) = g.next(r);
            // the last one changes the constants, too: then only the shape is compared
            let other_constants = i == reps - 1;
            for (j, k) in kinds.iter().enumerate() {
                if (*k == Kind::Const || (*k == Kind::Same && j == 0)) && !other_constants {
                    inp[j] = first[j];
                }
            }
            if i == 2 {
                // a run of the same circuit with everything zero
                for (j, k) in kinds.iter().enumerate() {
                    if *k != Kind::Const && !(*k == Kind::Same && j == 0) {
                        inp[j] = Fe::ZERO;
                    }
                }
            }
            let vals = effective(&kinds, &inp);
            let native = match native_of(&vals) {
                Ok(x) => x,
                Err(_) => continue,
            };
            let mode = match i {
                0 => SynthesisMode::Setup,
                _ => SynthesisMode::Prove { construct_matrices: true },
            };
            // something unrelated in between
            if r.chance(1, 3) {
                let k = 1 + r.below(7);
                let cs = ConstraintSystem::<Fq>::new_ref();
                let w: Vec<FqVar> = (0..=k).map(|_| FqVar::new_witness(cs.clone(), || Ok(fq(r.fe()))).unwrap()).collect();
                let _ = guard(|| gadget_hash(cs, &w));
                t.count("unrelated_syntheses", 1);
            }
            let name = format!("{:?} with {}", mode, show(&vals));
            let case = |o: &str| format!("{}: {} / {}", desc, o, name);
            match synth(&call, &kinds, &vals, native, mode, goal, None) {
                Err(e) => {
                    t.fail(format!("synthesis failed: {}", e), format!("{}: {}", desc, name));
                    return;
                }
                Ok((s, ..)) => {
                    let d = s.digest();
                    let cnt = (s.ninst, s.nwit, s.rows.len());
                    // (under the weight goal ark-relations outlines by the number of terms, which special constants change)
                    if other_constants && goal == OptimizationGoal::Weight {
                        t.count("weight_goal_other_constants", 1);
                        counts = Some(cnt);
                    }
                    if let Some(c0) = counts {
                        if c0 != cnt {
                            t.fail(format!("the circuit has (inputs, witnesses, constraints) = {:?} and {:?} for different values or modes", c0, cnt), case(&seen.as_ref().map(|x| x.4.clone()).unwrap_or_default()));
                        }
                    }
                    counts = Some(cnt);
                    if !other_constants || !kinds.contains(&Kind::Const) {
                        if let Some(o) = &seen {
                            if o.0 != d {
                                t.fail("the recorded matrices differ for different values or modes".to_string(), case(&o.4));
                            }
                        } else {
                            seen = Some((d, cnt.0, cnt.1, cnt.2, name.clone()));
                        }
                    }
                    t.count("matrices_recorded", 1);
                    t.count("matrix_entries", s.rows.iter().map(|r| r.iter().map(|x| x.len() as u64).sum::<u64>()).sum());
                }
            }
            // proving without matrices has the same shape
            // (under the weight goal ark-relations outlines only when it builds matrices, so the counts differ by design)
            if i > 0 && goal != OptimizationGoal::Weight && r.chance(1, 2) {
                let cs = ConstraintSystem::<Fq>::new_ref();
                cs.set_optimization_goal(goal);
                cs.set_mode(SynthesisMode::Prove { construct_matrices: false });
                if let Ok((ni, nw, nc)) = guard(|| {
                    let mut words: Vec<FqVar> = Vec::new();
                    for (j, k) in kinds.iter().enumerate() {
                        let v = fq(vals[j]);
                        words.push(match k {
                            Kind::Witness => FqVar::new_witness(cs.clone(), || Ok(v)).unwrap(),
                            Kind::Input => FqVar::new_input(cs.clone(), || Ok(v)).unwrap(),
                            Kind::Shift => FqVar::new_witness(cs.clone(), || Ok(fq(vals[j] - Fe::from_u64(9)))).unwrap() + fq(Fe::from_u64(9)),
                            Kind::Same if j > 0 => words[j - 1].clone(),
                            Kind::Sum => FqVar::new_witness(cs.clone(), || Ok(fq(vals[j] - vals[j - 1] - vals[j - 1]))).unwrap() + words[j - 1].double().unwrap(),
                            _ => FqVar::new_constant(cs.clone(), v).unwrap(),
                        });
                    }
                    let x = call(cs.clone(), &words).unwrap();
                    let o = FqVar::new_input(cs.clone(), || Ok(fq(native))).unwrap();
                    o.enforce_equal(&x).unwrap();
                    cs.finalize();
                    (cs.num_instance_variables(), cs.num_witness_variables(), cs.num_constraints())
                }) {
                    if Some((ni, nw, nc)) != counts {
                        t.fail(format!("proving without matrices gives (inputs, witnesses, constraints) = {:?} instead of {:?}", (ni, nw, nc), counts), case("matrices constructed"));
                    }
                    t.count("matrix_free_syntheses", 1);
                }
            }
            t.eval(key_of(rate as u64, &vals), true);
            if !t.viol.is_empty() {
                return;
            }
        }
        // what came before in the same system only shifts the variables
        if let Some((_, ni0, nw0, nc0, _)) = &seen {
            let vals = effective(&kinds, &first);
            if let Ok(native) = native_of(&vals) {
                let most = if ctx.thorough { 1 << 18 } else { 1 << 16 };
                // the larger ones are rarer: they cost as much as dozens of ordinary cases
                let most = if r.chance(1, 6) { most } else { 512 };
                let before = Before::next(r, most);
                let shown = (before.products, before.inputs, before.sums, before.hashes);
                let full = SynthesisMode::Prove { construct_matrices: true };
                let goal = *r.pick(&[OptimizationGoal::None, OptimizationGoal::Constraints]);
                let mode = if r.chance(1, 3) { SynthesisMode::Setup } else { full };
                let plain = synth(&call, &kinds, &vals, native, full, goal, None);
                let pre = synth(&call, &kinds, &vals, native, mode, goal, Some(&before));
                if let (Ok((a, ..)), Ok((b, ..))) = (plain, pre) {
                    let (bi, bw, bc) = before.at.get();
                    let map = |s: &Vec<(Fe, usize)>| -> Vec<(Fe, usize)> {
                        s.iter().map(|(c, i)| (*c, if *i == 0 { 0 } else if *i < a.ninst { *i + bi - 1 } else { *i - a.ninst + b.ninst + bw })).collect()
                    };
                    let same = a.ninst + bi - 1 == b.ninst
                        && a.nwit + bw == b.nwit
                        && a.rows.len() + bc == b.rows.len()
                        && a.rows.iter().zip(&b.rows[bc..]).all(|(x, y)| (0..3).all(|k| map(&x[k]) == y[k]));
                    if !same {
                        t.fail(
                            format!(
                                "after {} products, {} inputs, {} sums and {} hashes in the same system the gadget adds different constraints ({} inputs, {} witnesses, {} constraints instead of {}, {}, {})",
                                shown.0, shown.1, shown.2, shown.3, (b.ninst + 1).saturating_sub(bi), b.nwit.saturating_sub(bw), b.rows.len().saturating_sub(bc), ni0, nw0, nc0
                            ),
                            format!("{}: {:?} / {:?} with {}", desc, full, mode, show(&vals)),
                        );
                    }
                    t.max("constraints_before_the_gadget_at_most", bc as u64);
                    t.count("constraints_before_gadgets", bc as u64);
                    t.count("prefixed_systems", 1);
                }
            }
        }
        t.count(&if rate == 0 { "own_parameters".to_string() } else { format!("rate_{}", rate) }, 1);
        t.sample(|| format!("{}: {:?} (inputs, witnesses, constraints) in all of {} syntheses", desc, counts, reps));
    })
}

// ---------------------------------------------------------------- Groth16
use ark_groth16::{r1cs_to_qap::LibsnarkReduction, Groth16, ProvingKey, VerifyingKey};
use ark_relations::r1cs::ConstraintSynthesizer;
use ark_serialize::CanonicalDeserialize;
use ark_snark::SNARK;
use decaf377::Bls12_377;

const DOMAIN_SEP: [u64; 4] = [15545862963729521748, 8301038308012579564, 6940338389606830037, 431207966161902270];

#[derive(Clone)]
struct Preimage {
    pre: Vec<Fq>,
    out: Vec<Fq>,
}
impl ConstraintSynthesizer<Fq> for Preimage {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fq>) -> ark_relations::r1cs::Result<()> {
        let mut p = Vec::new();
        for v in &self.pre {
            p.push(FqVar::new_witness(cs.clone(), || Ok(*v))?);
        }
        let d = FqVar::new_constant(cs.clone(), Fq::from_montgomery_limbs(DOMAIN_SEP))?;
        let mut o = Vec::new();
        for v in &self.out {
            o.push(FqVar::new_input(cs.clone(), || Ok(*v))?);
        }
        for k in 1..=7 {
            let mut w = vec![d.clone()];
            w.extend(p[..k].iter().cloned());
            let x = gadget_hash(cs.clone(), &w)?;
            o[k - 1].enforce_equal(&x)?;
        }
        Ok(())
    }
}
struct Seeded(Rng);
impl ark_std::rand::RngCore for Seeded {
    fn next_u32(&mut self) -> u32 {
        self.0.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d.iter_mut() {
            *b = self.0.u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl ark_std::rand::CryptoRng for Seeded {}
type G = Groth16<Bls12_377, LibsnarkReduction>;

fn outputs(pre: &[Fe], ds: Fe) -> Result<Vec<Fe>, String> {
    guard(|| {
        (1..=7)
            .map(|k| {
                let mut v = vec![ds];
                v.extend(&pre[..k]);
                fe(&hash(&fqv(&v)))
            })
            .collect()
    })
}
/// Seven pre-images, and the rate whose S-box inputs they make special (0: none).
fn preimages(c: u64, r: &mut Rng, pool: &Pool, refs: &[Ref], ds: Fe) -> (Vec<Fe>, usize) {
    let mut aimed_at = 0;
    let pre: Vec<Fe> = match c % 12 {
        0 => (0..7).map(|_| r.fe()).collect(),
        6..=11 => {
            // make an S-box input of one of the seven hashes special
            aimed_at = 1 + (c / 12 * 6 + c % 12) as usize % 7;
            let mut v = aimed(r, &pool, &refs[aimed_at - 1].base, ds);
            while v.len() < 7 {
                v.push(r.fe());
            }
            v
        }
        1 => (0..7).map(|_| *r.pick(&pool.all)).collect(),
        2 => {
            let x = pool.word(r);
            vec![x; 7]
        }
        3 => {
            let mut v = vec![Fe::ZERO; 7];
            let i = r.below(7);
            v[i] = pool.word(r);
            v
        }
        4 => (0..7).map(|i| if i == (c / 6) as usize % 7 { Fe::ZERO } else { r.fe() }).collect(),
        _ => (0..7).map(|_| pool.word(r)).collect(),
    };
    (pre, aimed_at)
}
/// A hash of the circuit recorded for these pre-images, and whether its honest assignment satisfies it. (Only a screening, so the field
/// arithmetic of the crates will do.)
fn preimage_system(circ: &Preimage, mode: SynthesisMode) -> Result<(u64, bool), String> {
    use std::hash::{Hash, Hasher};
    guard(|| {
        let cs = ConstraintSystem::<Fq>::new_ref();
        cs.set_optimization_goal(OptimizationGoal::Constraints);
        cs.set_mode(mode);
        circ.clone().generate_constraints(cs.clone()).map_err(|e| e.to_string())?;
        cs.finalize();
        let m = cs.to_matrices().ok_or("no matrices")?;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (m.num_instance_variables, m.num_witness_variables, m.num_constraints, &m.a, &m.b, &m.c).hash(&mut h);
        let ok = mode == SynthesisMode::Setup || {
            let c = cs.borrow().unwrap();
            let z: Vec<Fq> = c.instance_assignment.iter().chain(&c.witness_assignment).copied().collect();
            let at = |row: &Vec<(Fq, usize)>| row.iter().fold(Fq::from(0u64), |a, (k, i)| a + *k * z[*i]);
            (0..m.a.len()).all(|i| at(&m.a[i]) * at(&m.b[i]) == at(&m.c[i]))
        };
        Ok((h.finish(), ok))
    })?
}

/// C10
pub fn c10(ctx: &Ctx, refs: &[Ref]) -> Tally {
    let dir = if ctx.arg.is_empty() { "/repo/poseidon-tests/test_vectors".to_string() } else { ctx.arg.clone() };
    let pkb = std::fs::read(format!("{}/preimage_pk.bin", dir)).expect("harness: proving key file");
    let vkb = std::fs::read(format!("{}/preimage_vk.param", dir)).expect("harness: verifying key file");
    let pk = ProvingKey::<Bls12_377>::deserialize_uncompressed_unchecked(&pkb[..]);
    let vk = VerifyingKey::<Bls12_377>::deserialize_uncompressed(&vkb[..]);
    let (pk, vk) = match (pk, vk) {
        (Ok(p), Ok(v)) => (p, v),
        (p, v) => {
            let mut t = Tally::default();
            t.evals = 1;
            t.fail(format!("the committed keys cannot be parsed: {:?} {:?}", p.err(), v.err()), dir);
            return t;
        }
    };
    if pk.vk != vk {
        let mut t = Tally::default();
        t.evals = 1;
        t.fail("the committed proving key does not contain the committed verifying key", dir);
        return t;
    }
    let pvk = match G::process_vk(&vk) {
        Ok(p) => p,
        Err(e) => panic!("harness: {}", e),
    };
    let ds = Fe::from_mont(DOMAIN_SEP);
    // the circuit of the keys
    let any = Preimage { pre: vec![Fq::from(1u64); 7], out: vec![Fq::from(1u64); 7] };
    let keyed = preimage_system(&any, SynthesisMode::Setup).map(|x| x.0);
    parallel(ctx, |c, r, t| {
        // Many more statements are only synthesised: one whose circuit is that of the keys and whose honest assignment satisfies it would
        // also be proved. The others are put to the proof.
        let mut suspects: Vec<(Vec<Fe>, usize)> = Vec::new();
        for k in 0..24 {
            let (pre, aimed_at) = preimages(c.wrapping_mul(24) + k, r, &ctx.pool, refs, ds);
            let Ok(out) = outputs(&pre, ds) else {
                suspects.push((pre, aimed_at));
                continue;
            };
            let circ = Preimage { pre: fqv(&pre), out: fqv(&out) };
            match preimage_system(&circ, SynthesisMode::Prove { construct_matrices: true }) {
                Ok((s, true)) if keyed == Ok(s) => {}
                _ => suspects.push((pre.clone(), aimed_at)),
            }
            t.count("statements_synthesised", 1);
            t.eval(key_of(3, &pre), true);
        }
        t.count("statements_synthesised_and_suspect", suspects.len() as u64);
        let mut rng = Seeded(Rng::new(ctx.seed ^ 0xABCD, c));
        let (pre, aimed_at) = suspects.pop().unwrap_or_else(|| preimages(c, r, &ctx.pool, refs, ds));
        let out = outputs(&pre, ds);
        let case = || format!("pre-images {}", show(&pre));
        let out = match out {
            Ok(o) => o,
            Err(e) => {
                t.fail(format!("hashing the pre-images panicked: {}", e), case());
                return;
            }
        };
        let circ = Preimage { pre: fqv(&pre), out: fqv(&out) };
        let proof = match guard(|| G::prove(&pk, circ.clone(), &mut rng)) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => {
                t.fail(format!("proving a true statement failed: {:?}", e), case());
                return;
            }
            Err(e) => {
                t.fail(format!("proving a true statement panicked: {}", e), case());
                return;
            }
        };
        match guard(|| G::verify_with_processed_vk(&pvk, &circ.out, &proof)) {
            Ok(Ok(true)) => {}
            x => {
                t.fail(format!("a proof of a true statement does not verify under the committed keys: {:?}", x), case());
                return;
            }
        }
        t.count("honest_proofs", 1);
        if aimed_at > 0 {
            t.count("honest_proofs_with_a_special_s_box_input", 1);
        }
        t.eval(key_of(1, &pre), true);
        // the same proof against altered statements
        for i in 0..7 {
            let mut o = out.clone();
            o[i] = match r.below(6) {
                0 => o[i] + Fe::ONE,
                1 => -o[i],
                2 => Fe::ZERO,
                3 => o[(i + 1) % 7],
                4 => o[i] + o[i],
                _ => r.fe(),
            };
            if o == out {
                continue;
            }
            if let Ok(Ok(true)) = guard(|| G::verify_with_processed_vk(&pvk, &fqv(&o), &proof)) {
                t.fail(format!("a proof verifies although output {} has been altered to {}", i + 1, o[i].hex()), case());
            }
            t.count("altered_statements", 1);
            t.eval(key_of(2 + i as u64, &o), true);
        }
        let mut o = out.clone();
        o.swap(r.below(3), 3 + r.below(4));
        if o != out {
            if let Ok(Ok(true)) = guard(|| G::verify_with_processed_vk(&pvk, &fqv(&o), &proof)) {
                t.fail("a proof verifies although two outputs have been exchanged", case());
            }
            t.count("altered_statements", 1);
        }
        // a proof attempted for a false statement
        let i = (c % 7) as usize;
        let mut o = out.clone();
        o[i] = if r.chance(1, 2) { o[i] + Fe::ONE } else { r.fe() };
        let bad = Preimage { pre: fqv(&pre), out: fqv(&o) };
        match guard(|| G::prove(&pk, bad.clone(), &mut rng)) {
            Ok(Ok(p)) => {
                for (s, name) in [(&bad.out, "the false statement"), (&circ.out, "the true statement")] {
                    let v = guard(|| G::verify_with_processed_vk(&pvk, s, &p));
                    if name == "the false statement" && matches!(v, Ok(Ok(true))) {
                        t.fail(format!("a proof made for a false output {} ({}) verifies", i + 1, o[i].hex()), case());
                    }
                }
                t.count("false_statements_proved_and_rejected", 1);
            }
            _ => t.count("false_statements_refused_by_prover", 1),
        }
        t.eval(key_of(20, &o), true);
        t.sample(|| format!("{} proved, verified; 8 altered statements and one false proof rejected", case()));
    })
}
