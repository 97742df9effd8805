//! C01, C03, C04, C05: native hashing under the shipped parameters.
use crate::bridge::*;
use crate::dynp::*;
use crate::gen::*;
use crate::rep::*;
use crate::rf::Fe;
use crate::spec::*;
use poseidon377::*;
use poseidon_parameters::v1::PoseidonParameters;

fn chunk_rate(c: u64) -> usize {
    (c % 7) as usize + 1
}

/// C01
pub fn c01(ctx: &Ctx, refs: &[Ref]) -> Tally {
    let n = 192;
    parallel(ctx, |c, r, t| {
        let rate = chunk_rate(c);
        let rf = &refs[rate - 1];
        let mut g = StateGen::new(&ctx.pool, vec![&rf.plain, &rf.fast]);
        for i in 0..n {
            let (inp, mode) = g.next(r);
            let v = fqv(&inp);
            let want = if i % 16 == 0 { rf.plain.run(&inp)[1] } else { rf.fast.run(&inp)[1] };
            let case = || format!("hash_{}(ds, ..) with [ds, inputs..] = {}", rate, show(&inp));
            match guard(|| hash(&v)) {
                Err(e) => t.fail(format!("hash_{} panicked: {}", rate, e), case()),
                Ok(got) => {
                    if !same(&got, want) {
                        t.fail(format!("hash_{} returned {} but the specification gives {}", rate, fe(&got).hex(), want.hex()), case());
                    }
                    g.note_output(want);
                }
            }
            t.eval(key_of(rate as u64, &inp), inp.iter().any(|x| !x.is_zero()));
            t.count(&format!("mode_{}", MODES[mode]), 1);
            if !t.viol.is_empty() {
                return;
            }
            if i == 7 {
                t.sample(|| format!("{} -> {}", case(), want.hex()));
            }
        }
        t.count(&format!("rate_{}", rate), n);
    })
}

/// C03
pub fn c03(ctx: &Ctx, refs: &[Ref]) -> Tally {
    let n = 96;
    parallel(ctx, |c, r, t| {
        let rate = chunk_rate(c);
        let rf = &refs[rate - 1];
        let p = shipped_params(rate);
        let mut g = StateGen::new(&ctx.pool, vec![&rf.plain, &rf.fast]);
        for i in 0..n {
            let (inp, mode) = g.next(r);
            let v = fqv(&inp);
            let case = || format!("width {} state {}", rate + 1, show(&inp));
            let a = guard(|| {
                let mut k = p.inst();
                let x = k.opt(&v);
                (x, k.words())
            });
            let b = guard(|| {
                let mut k = p.inst();
                let x = k.unopt(&v);
                (x, k.words())
            });
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    if a.0 != b.0 {
                        t.fail(format!("optimised returns {}, unoptimised {}", fe(&a.0).hex(), fe(&b.0).hex()), case());
                    } else if a.1 != b.1 {
                        t.fail(format!("optimised state {}, unoptimised state {}", show(&fev(&a.1)), show(&fev(&b.1))), case());
                    } else if a.0 != a.1[1] {
                        t.fail("returned element is not the second output word".to_string(), case());
                    }
                    g.note_output(fe(&a.0));
                    if i == 5 {
                        t.sample(|| format!("{} -> {}", case(), show(&fev(&a.1))));
                    }
                }
                (a, b) => {
                    let w = format!("panic: optimised {:?}, unoptimised {:?}", a.err(), b.err());
                    t.fail(w, case());
                }
            }
            t.eval(key_of(rate as u64, &inp), inp.iter().any(|x| !x.is_zero()));
            t.count(&format!("mode_{}", MODES[mode]), 1);
            if !t.viol.is_empty() {
                return;
            }
        }
        t.count(&format!("rate_{}", rate), n as u64);
    })
}

/// C04: invert what is observed; related inputs have different results.
pub fn c04(ctx: &Ctx, refs: &[Ref]) -> Tally {
    parallel(ctx, |c, r, t| {
        let rate = chunk_rate(c);
        let rf = &refs[rate - 1];
        let w = rate + 1;
        let p = shipped_params(rate);
        let mut g = StateGen::new(&ctx.pool, vec![&rf.plain, &rf.fast]);
        // (a) bijection: the observed output state determines the input
        for i in 0..16 {
            let (inp, _) = g.next(r);
            let v = fqv(&inp);
            let case = || format!("width {} state {}", w, show(&inp));
            let both = i % 2 == 0;
            let out = guard(|| {
                let mut k = p.inst();
                if both {
                    k.opt(&v);
                } else {
                    k.unopt(&v);
                }
                k.words()
            });
            match out {
                Err(e) => t.fail(format!("panicked: {}", e), case()),
                Ok(o) => {
                    let back = if i % 4 < 2 { rf.plain.invert(&fev(&o)) } else { rf.fast.invert(&fev(&o)) };
                    if back != inp {
                        t.fail(
                            format!("{} path: the output state {} belongs to the input {}", if both { "optimised" } else { "unoptimised" }, show(&fev(&o)), show(&back)),
                            case(),
                        );
                    }
                }
            }
            t.eval(key_of(rate as u64, &inp), true);
            t.count("states_inverted", 1);
            if !t.viol.is_empty() {
                return;
            }
        }
        // (b) families of related inputs
        let (inp, _) = g.next(r);
        let mut fam: Vec<(Vec<Fe>, &str)> = vec![(inp.clone(), "base")];
        for i in 0..w {
            for (d, name) in [(Fe::ONE, "word+1"), (-Fe::ONE, "word-1"), (ctx.pool.word(r), "word+x")] {
                let mut v = inp.clone();
                v[i] += d;
                fam.push((v, name));
            }
            let mut v = inp.clone();
            v[i] = -v[i];
            fam.push((v, "word negated"));
            let mut v = inp.clone();
            v[i] = Fe::ZERO;
            fam.push((v, "word zeroed"));
            for k in 0..4 {
                let mut v = inp.clone();
                let mut l = v[i].to_int();
                l[k] ^= 1u64 << r.below(if k == 3 { 59 } else { 64 });
                v[i] = Fe::from_int(l);
                fam.push((v, "bit flipped"));
                let mut v = inp.clone();
                let mut l = v[i].0;
                l[k] = r.u64();
                v[i] = Fe::from_mont(l);
                fam.push((v, "limb replaced"));
            }
            for j in 0..i {
                let mut v = inp.clone();
                v.swap(i, j);
                fam.push((v, "words swapped"));
            }
        }
        let mut v = inp.clone();
        v.rotate_left(1);
        fam.push((v, "rotated"));
        let mut v = inp.clone();
        v[1..].reverse();
        fam.push((v, "inputs reversed"));
        // other arities: zero padding, truncation, repeated last word
        if w < 8 {
            let mut v = inp.clone();
            v.push(Fe::ZERO);
            fam.push((v, "padded with zero"));
            let mut v = inp.clone();
            v.push(*inp.last().unwrap());
            fam.push((v, "last word repeated"));
        }
        if w > 2 {
            let mut v = inp.clone();
            v.pop();
            fam.push((v, "truncated"));
            fam.push((inp[1..].to_vec(), "domain separator dropped"));
        }
        let mut seen: std::collections::HashMap<[u8; 32], usize> = Default::default();
        for (idx, (v, name)) in fam.iter().enumerate() {
            if fam[..idx].iter().any(|(u, _)| u == v) {
                continue;
            }
            let q = fqv(v);
            match guard(|| hash(&q)) {
                Err(e) => t.fail(format!("hash_{} panicked: {}", v.len() - 1, e), show(v)),
                Ok(o) => {
                    let b = o.to_bytes();
                    t.eval(key_of(100 + v.len() as u64, v), true);
                    t.count("related_hashes", 1);
                    if let Some(k) = seen.insert(b, idx) {
                        t.fail(
                            format!("two different inputs ({} / {}) have the same hash {}", fam[k].1, name, fe(&o).hex()),
                            format!("{} and {}", show(&fam[k].0), show(v)),
                        );
                        return;
                    }
                }
            }
        }
        t.count("families", 1);
        t.sample(|| format!("width {}: base {} with {} related inputs, all hashes distinct", w, show(&inp), fam.len() - 1));
    })
}

/// The same operation in a fresh process: None if it panics there, else [returned element, output words...].
pub fn fresh(op: &str, inp: &[Fe]) -> Option<Vec<Fe>> {
    let _calm = crate::world::Strange::new(0);
    let exe = std::env::current_exe().ok()?;
    let o = std::process::Command::new(exe).arg("one").arg(op).args(inp.iter().map(|x| x.hex())).output().expect("harness: fresh process");
    if !o.status.success() {
        return None;
    }
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    Some(s.split_whitespace().map(|x| Fe::from_hex(x).unwrap()).collect())
}
pub fn one(args: &[String]) -> i32 {
    let own: Option<u64> = args[0].split('@').nth(1).map(|x| x.parse().unwrap());
    let inp: Vec<Fe> = args[1..].iter().map(|x| Fe::from_hex(x).unwrap()).collect();
    let v = fqv(&inp);
    let r = match args[0].as_str() {
        "hash" => guard(|| vec![hash(&v)]),
        op => guard(|| {
            let p = match own {
                Some(seed) => {
                    let (b, o) = custom(seed);
                    build_shape(&b, &o, 128)
                }
                None => shipped_params(inp.len() - 1),
            };
            let mut k = p.inst();
            let x = if op.starts_with("opt") { k.opt(&v) } else { k.unopt(&v) };
            let mut o = vec![x];
            o.extend(k.words());
            o
        }),
    };
    match r {
        Ok(o) => {
            println!("{}", fev(&o).iter().map(|x| x.hex()).collect::<Vec<_>>().join(" "));
            0
        }
        Err(e) => {
            eprintln!("{}", e);
            3
        }
    }
}

/// One instance used a great many times.
fn pump(ctx: &Ctx, refs: &[Ref], r: &mut Rng, t: &mut Tally) {
    let rate = 1 + r.below(2);
    let rf = &refs[rate - 1];
    let p = shipped_params(rate);
    let mut k = p.inst();
    // past 2^16 calls of either kind, at times past 2^20 of one
    let mostly_unopt = r.chance(1, 3);
    let n = match (ctx.arg == "short", ctx.thorough && r.chance(1, 12)) {
        (true, _) => 3_000u64,
        (_, true) => 1_070_000,
        _ => 67_000,
    };
    let mut inp: Vec<Fe> = (0..rate + 1).map(|_| ctx.pool.word(r)).collect();
    for i in 0..n {
        let want = rf.fast.run(&inp);
        let v = fqv(&inp);
        let unopt = (i % 61 == 60) != mostly_unopt;
        let got = guard(|| if unopt { k.unopt(&v) } else { k.opt(&v) });
        let ok = matches!(&got, Ok(x) if same(x, want[1]));
        let op = if unopt { "unopt" } else { "opt" };
        if !ok || (i % 1024 == 0 && fev(&k.words()) != want) {
            let f = fresh(op, &inp);
            let same_fresh = match (&got, &f) {
                (Ok(x), Some(o)) => o[0] == fe(x) && o[1..] == fev(&k.words())[..],
                (Err(_), None) => true,
                _ => false,
            };
            if same_fresh {
                t.count("chunks_cut_short_history_independent_but_not_per_specification", 1);
                return;
            }
            t.fail(
                format!("call {} on one instance gave {:?} but a fresh process gives {:?}", i + 1, got.map(|x| fe(&x)), f),
                format!("rate {} {} {} as call {} of a chain in which each input is derived from the previous output", rate, op, show(&inp), i + 1),
            );
            return;
        }
        t.eval(key_of(7 + rate as u64, &inp), true);
        // the next input comes from the output, but no word is the one left in its place
        for j in 0..rate + 1 {
            if i % (rate as u64 + 1) == j as u64 || inp[j] == want[j] {
                inp[j] = want[(j + 1) % (rate + 1)] + Fe::ONE;
            }
        }
    }
    t.max("calls_on_one_instance", n);
    t.count("long_chains", 1);
}

/// Many parameter sets of the caller's own, of the same shapes and at the same addresses, one after the other and at once.
fn own_sets(ctx: &Ctx, c: u64, r: &mut Rng, t: &mut Tally) {
    let fresh_set = |r: &mut Rng| {
        let seed = r.u64() >> 16;
        let (b, o) = custom(seed);
        (seed, build_shape(&b, &o, 128), Plan::plain(&b))
    };
    let mut sets: Vec<(u64, Box<dyn Params>, Plan)> = (0..2 + r.below(3)).map(|_| fresh_set(r)).collect();
    let mut log: Vec<String> = Vec::new();
    for step in 0..if ctx.arg == "short" { 6 } else { 24 } {
        if r.chance(1, 2) {
            // replaced: the new set usually takes the memory of the old one
            let i = r.below(sets.len());
            sets.swap_remove(i);
            sets.push(fresh_set(r));
            log.push(format!("set {} replaced by set @{}", i, sets.last().unwrap().0));
            t.count("own_sets_replaced", 1);
        }
        let mut live: Vec<(usize, Box<dyn Inst + '_>)> = Vec::new();
        for _ in 0..1 + r.below(3) {
            let i = r.below(sets.len());
            live.push((i, sets[i].1.inst()));
        }
        if r.chance(1, 4) {
            log.push(refused(r));
            t.count("refused_operations", 1);
        }
        for k in 0..2 + r.below(8) {
            let li = r.below(live.len());
            let (si, inst) = &mut live[li];
            let (seed, _, plan) = &sets[*si];
            let mut g = StateGen::new(&ctx.pool, vec![plan]);
            let (inp, _) = g.next(r);
            let v = fqv(&inp);
            let want = plan.run(&inp);
            let opt = r.chance(1, 2);
            let op = format!("{}@{}", if opt { "opt" } else { "unopt" }, seed);
            let got = guard(|| {
                let x = if opt { inst.opt(&v) } else { inst.unopt(&v) };
                (x, inst.words())
            });
            log.push(format!("{}({})", op, show(&inp)));
            let seen = match &got {
                Ok((x, w)) => Some([vec![fe(x)], fev(w)].concat()),
                Err(_) => None,
            };
            if seen.as_ref().map(|s| s[0] == want[1] && s[1..] == want[..]) != Some(true) {
                if fresh(&op, &inp) == seen {
                    t.count("chunks_cut_short_history_independent_but_not_per_specification", 1);
                    return;
                }
                let tail: Vec<String> = log.iter().rev().take(12).rev().cloned().collect();
                t.fail(
                    format!("a hash with the caller's own parameter set gave {:?} where a fresh process gives something else", seen.map(|s| show(&s))),
                    format!("history of {} operations (set @n is the n-th set of the generator), the last of them: {}", log.len(), tail.join("; ")),
                );
                return;
            }
            t.eval(key_of(c << 20 | (step as u64) << 8 | k as u64, &inp), true);
            t.count("calls_with_own_parameter_sets", 1);
        }
    }
    t.count("histories_over_own_sets", 1);
}

/// Operations that are refused, most of them by a panic in the middle: nothing of them may show in later hashes.
fn refused(r: &mut Rng) -> String {
    use poseidon_parameters::v1::*;
    let alpha = [Alpha::Exponent(17), Alpha::Exponent(3), Alpha::Inverse, Alpha::Exponent(0)][r.below(4)];
    let (a, b, c) = (fq(Fe::from_u64(r.u64())), fq(Fe::from_u64(r.u64())), fq(Fe::from_u64(r.u64())));
    let more = 1 + r.below(40);
    let k = r.below(10);
    let out = guard(|| match k {
        0 | 1 => {
            // more partial rounds than there are sparse matrices
            let mut p = RATE_1_PARAMS;
            p.alpha = alpha;
            p.rounds.r_P += more;
            let mut i = Instance::new(&p);
            if k == 0 { i.n_to_1_fixed_hash(&[a, b]) } else { i.unoptimized_n_to_1_fixed_hash([a, b]) };
        }
        2 | 3 => {
            // more full rounds than there are constants
            let mut p = RATE_2_PARAMS;
            p.alpha = alpha;
            p.rounds.r_F += 2 * more;
            let mut i = Instance::new(&p);
            if k == 2 { i.n_to_1_fixed_hash(&[a, b, c]) } else { i.unoptimized_n_to_1_fixed_hash([a, b, c]) };
        }
        4 => {
            // no partial rounds at all
            let mut p = RATE_7_PARAMS;
            p.rounds.r_P = 0;
            p.rounds.r_F = 400;
            let mut i = Instance::new(&p);
            i.n_to_1_fixed_hash(&[a, b, c, a, b, c, a, b]);
        }
        5 => drop(Matrix::<2, 3, 6>::new(&[a, b, c])),
        6 => drop(MdsMatrix::<2, 1, 4, 1>::new(&[a, a, a, a]).inverse()),
        7 => drop(SquareMatrix::<3, 9>::new(&[a, b, c, a, b, c, b, c, a]).inverse()),
        8 => drop(SquareMatrix::<9, 81>::identity().determinant()),
        _ => drop(RATE_3_PARAMS.arc.get_element(more + 38, 3)),
    });
    format!("operation {} that {}", k, if out.is_err() { "was refused by a panic" } else { "returned" })
}

/// Hash while the thread unwinds from a panic.
fn while_unwinding(v: &[Fq]) -> Result<Fq, String> {
    struct Last<'a>(&'a [Fq], &'a std::cell::Cell<Option<Result<Fq, String>>>);
    impl Drop for Last<'_> {
        fn drop(&mut self) {
            self.1.set(Some(guard(|| hash(self.0))));
        }
    }
    let slot = std::cell::Cell::new(None);
    let _ = guard(|| {
        let _last = Last(v, &slot);
        panic!("on purpose");
    });
    slot.take().expect("harness: the value was dropped")
}

fn fail_self_check(what: &str) -> ! {
    eprintln!("self-check failed: {}", what);
    std::process::exit(4);
}

/// C05: random histories over live instances.
pub fn c05(ctx: &Ctx, refs: &[Ref]) -> Tally {
    if cfg!(feature = "hist") && !crate::world::works() {
        fail_self_check("the environment cannot be changed under a call");
    }
    parallel(ctx, |c, r, t| {
        // in some histories every environment variable is set and the clocks are wrong
        let kind = if c % 3 == 1 { 1 + (c / 3 % 4) as u8 } else { 0 };
        let _strange = crate::world::Strange::new(kind);
        history(ctx, refs, c, r, t);
        if kind > 0 && cfg!(feature = "hist") {
            t.count("histories_in_a_changed_environment", 1);
            let n = crate::world::seen();
            if n > 0 {
                t.count("reads_of_environment_or_clock", n);
            }
        }
    })
}
fn history(ctx: &Ctx, refs: &[Ref], c: u64, r: &mut Rng, t: &mut Tally) {
    {
        if c % 24 == 2 {
            return pump(ctx, refs, r, t);
        }
        if c % 8 == 5 {
            return own_sets(ctx, c, r, t);
        }
        // A few parameter sets (some cloned), several instances of each.
        let long = c % 16 == 3;
        let rates: Vec<usize> = if long { vec![1 + r.below(2)] } else { (0..1 + r.below(3)).map(|_| 1 + r.below(7)).collect() };
        let mut owned: Vec<(usize, Box<dyn Params>)> = Vec::new();
        for &k in &rates {
            let p = shipped_params(k);
            if r.chance(1, 2) {
                let q = p.dup();
                if r.chance(1, 2) {
                    drop(p);
                } else {
                    owned.push((k, p));
                }
                owned.push((k, q));
            } else {
                owned.push((k, p));
            }
        }
        let snap: Vec<(Base, Opt)> = owned.iter().map(|(_, p)| (p.base(), p.opt())).collect();
        struct Live<'a> {
            rate: usize,
            inst: Box<dyn Inst + 'a>,
            state: Vec<Fe>,
            ops: usize,
            last: Option<(bool, Vec<Fe>)>,
        }
        let mut live: Vec<Live> = Vec::new();
        let mut gens: Vec<StateGen> = refs.iter().map(|x| StateGen::new(&ctx.pool, vec![&x.plain, &x.fast])).collect();
        let mut log: Vec<String> = Vec::new();
        let nops = if long { 2000 } else { 60 + r.below(200) };
        let mut mem: Vec<(usize, Vec<Fe>)> = Vec::new();
        macro_rules! bad {
            ($what:expr) => {{
                let tail: Vec<String> = log.iter().rev().take(12).rev().cloned().collect();
                t.fail($what, format!("history of {} operations, the last of them: {}", log.len(), tail.join("; ")));
                return;
            }};
        }
        for op in 0..nops {
            let kind = if live.is_empty() { 0 } else { r.below(20) };
            if kind == 0 && (live.len() < 6 || r.chance(1, 4)) {
                let (rate, p) = &owned[r.below(owned.len())];
                let i = match guard(|| p.inst()) {
                    Ok(i) => i,
                    Err(e) => bad!(format!("creating an instance panicked: {}", e)),
                };
                log.push(format!("#{} = new instance of rate {}", live.len(), rate));
                live.push(Live { rate: *rate, inst: i, state: vec![Fe::ZERO; *rate + 1], ops: 0, last: None });
                t.count("instances", 1);
            } else if kind == 1 && live.len() > 1 && !long {
                let i = r.below(live.len());
                live.swap_remove(i);
                log.push(format!("drop #{} (last takes its number)", i));
                continue;
            } else if kind == 2 {
                // a one-shot hash in between
                let rate = 1 + r.below(7);
                let (inp, _) = gens[rate - 1].next(r);
                let want = refs[rate - 1].fast.run(&inp)[1];
                let unwinding = r.chance(1, 6);
                log.push(format!("hash_{}({}){}", rate, show(&inp), if unwinding { " while unwinding from a panic" } else { "" }));
                if unwinding {
                    t.count("one_shot_hashes_while_unwinding", 1);
                }
                match if unwinding { while_unwinding(&fqv(&inp)) } else { guard(|| hash(&fqv(&inp))) } {
                    Ok(x) if same(&x, want) => {}
                    Ok(x) => {
                        if fresh("hash", &inp) == Some(vec![fe(&x)]) {
                            t.count("chunks_cut_short_history_independent_but_not_per_specification", 1);
                            return;
                        }
                        bad!(format!("hash_{} returned {} instead of {}", rate, fe(&x).hex(), want.hex()))
                    }
                    Err(e) => {
                        if fresh("hash", &inp).is_none() {
                            t.count("chunks_cut_short_panics_also_when_fresh", 1);
                            return;
                        }
                        bad!(format!("hash_{} panicked: {}", rate, e))
                    }
                }
                t.count("one_shot_hashes", 1);
            } else if kind == 3 && r.chance(1, 3) {
                log.push(refused(r));
                t.count(if log.last().unwrap().ends_with("returned") { "refused_operations_that_returned" } else { "refused_operations" }, 1);
                continue;
            } else {
                let li = r.below(live.len());
                let rate = live[li].rate;
                let (mut inp, _) = gens[rate - 1].next(r);
                match r.below(8) {
                    0 => inp = live[li].state.clone(), // feed the output state back
                    1 => {
                        // an input seen earlier in the history
                        let old: Vec<&(usize, Vec<Fe>)> = mem.iter().filter(|m| m.0 == rate).collect();
                        if !old.is_empty() {
                            inp = old[r.below(old.len())].1.clone();
                        }
                    }
                    _ => {}
                }
                if mem.len() < 64 {
                    mem.push((rate, inp.clone()));
                }
                let unopt = r.chance(1, 3);
                let v = fqv(&inp);
                let want = refs[rate - 1].fast.run(&inp);
                log.push(format!("#{}.{}({})", li, if unopt { "unoptimised" } else { "optimised" }, show(&inp)));
                let l = &mut live[li];
                let got = guard(|| if unopt { l.inst.unopt(&v) } else { l.inst.opt(&v) });
                match got {
                    Ok(x) if same(&x, want[1]) => {}
                    Ok(x) => {
                        if fresh(if unopt { "unopt" } else { "opt" }, &inp).map(|o| o[0]) == Some(fe(&x)) {
                            t.count("chunks_cut_short_history_independent_but_not_per_specification", 1);
                            return;
                        }
                        bad!(format!("call {} on this instance returned {} instead of {}", l.ops + 1, fe(&x).hex(), want[1].hex()))
                    }
                    Err(e) => {
                        if fresh(if unopt { "unopt" } else { "opt" }, &inp).is_none() {
                            t.count("chunks_cut_short_panics_also_when_fresh", 1);
                            return;
                        }
                        bad!(format!("panicked: {}", e))
                    }
                }
                live[li].last = Some((unopt, inp.clone()));
                if fev(&v) != inp {
                    bad!("the input was modified".to_string());
                }
                live[li].state = want;
                live[li].ops += 1;
                let o = live[li].ops as u64;
                t.max("calls_on_one_instance", o);
                t.count(if unopt { "unoptimised_calls" } else { "optimised_calls" }, 1);
                t.eval(key_of(c << 20 | op as u64, &inp), true);
            }
            // output words of some instance, not necessarily the last used
            if r.chance(1, 2) && !live.is_empty() {
                let li = if r.chance(1, 2) { live.len() - 1 } else { r.below(live.len()) };
                let w = live[li].inst.words();
                let w2 = live[li].inst.words();
                t.count("output_reads", 1);
                if fev(&w) != live[li].state || w != w2 {
                    if let (true, Some((u, i))) = (w == w2, &live[li].last) {
                        if fresh(if *u { "unopt" } else { "opt" }, i).map(|o| o[1..].to_vec()) == Some(fev(&w)) {
                            t.count("chunks_cut_short_history_independent_but_not_per_specification", 1);
                            return;
                        }
                    }
                    bad!(format!("output words of #{} are {} instead of {}", li, show(&fev(&w)), show(&live[li].state)));
                }
            }
            if log.len() > 400 {
                log.drain(..200);
            }
        }
        drop(live);
        for ((rate, p), (b0, o0)) in owned.iter().zip(&snap) {
            let b = p.base();
            let o = p.opt();
            if b.mds != b0.mds || b.arc != b0.arc || o.arc != o0.arc || o.m_i != o0.m_i || o.v_coll != o0.v_coll || o.w_hat_coll != o0.w_hat_coll {
                bad!(format!("the parameters of rate {} changed during the history", rate));
            }
            t.count("parameter_sets_checked_after_use", 1);
        }
        t.count("histories", 1);
        t.sample(|| format!("history: {} ...", log.iter().take(6).cloned().collect::<Vec<_>>().join("; ")));
    }
}
