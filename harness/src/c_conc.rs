//! C06: hashing from many threads at once. Built only with the feature `conc`: it does not compile if parameter sets
//! cannot be shared or instances cannot be sent.
use crate::bridge::*;
use crate::c_hash::fresh;
use crate::dynp::*;
use crate::gen::*;
use crate::rep::*;
use crate::rf::Fe;
use crate::spec::*;
use poseidon377::*;
use poseidon_parameters::v1::PoseidonParameters;
use poseidon_permutation::Instance;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};

fn needs_sync<T: Sync + Send>(_: &T) {}
fn needs_send<T: Send>(_: &T) {}

/// One prepared case.
struct Case {
    rate: usize,
    /// index among the caller's own parameter sets of this width
    own: Option<usize>,
    inp: Vec<Fe>,
    fqs: Vec<Fq>,
    want: Vec<Fq>,
}

macro_rules! with_rate {
    ($rate:expr, $own:expr, $s:expr, $p:ident => $e:expr) => {
        match $rate {
            1 if $own.is_some() => { let $p = &$s.own2[$own.unwrap()].1; $e }
            2 if $own.is_some() => { let $p = &$s.own3[$own.unwrap()].1; $e }
            1 => { let $p = &$s.p1; $e }
            2 => { let $p = &$s.p2; $e }
            3 => { let $p = &$s.p3; $e }
            4 => { let $p = &$s.p4; $e }
            5 => { let $p = &$s.p5; $e }
            6 => { let $p = &$s.p6; $e }
            _ => { let $p = &$s.p7; $e }
        }
    };
}
type P<const T: usize, const T1: usize, const E: usize, const E1: usize, const NE: usize> = PoseidonParameters<T, T1, E, E1, 39, T, NE, 31>;
/// Parameter sets shared by all threads.
struct Shared {
    p1: P<2, 1, 4, 1, 78>,
    p2: P<3, 2, 9, 4, 117>,
    p3: P<4, 3, 16, 9, 156>,
    p4: P<5, 4, 25, 16, 195>,
    p5: P<6, 5, 36, 25, 234>,
    p6: P<7, 6, 49, 36, 273>,
    p7: P<8, 7, 64, 49, 312>,
    /// the caller's own sets, of the same shapes as those of rates 1 and 2
    own2: Vec<(u64, P<2, 1, 4, 1, 78>)>,
    own3: Vec<(u64, P<3, 2, 9, 4, 117>)>,
}
impl Shared {
    fn new(r: &mut Rng, n: usize) -> Box<Shared> {
        let mut own2 = Vec::new();
        let mut own3 = Vec::new();
        while own2.len() < n || own3.len() < n {
            let seed = r.u64() >> 16;
            let shape = custom_shape(seed);
            if (shape == (2, 8, 31) && own2.len() < n) || (shape == (3, 8, 31) && own3.len() < n) {
                let (b, o) = custom(seed);
                if shape.0 == 2 {
                    own2.push((seed, build(&b, &o, 128)));
                } else {
                    own3.push((seed, build(&b, &o, 128)));
                }
            }
        }
        Box::new(Shared {
            own2,
            own3,
            p1: RATE_1_PARAMS,
            p2: RATE_2_PARAMS,
            p3: RATE_3_PARAMS,
            p4: RATE_4_PARAMS,
            p5: RATE_5_PARAMS,
            p6: RATE_6_PARAMS,
            p7: RATE_7_PARAMS,
        })
    }
}

/// Seven rates and two shapes of the caller's own sets.
const GROUPS: usize = 9;

struct Bad {
    what: String,
    case: String,
}

/// Run one operation on one case; Err describes a wrong result.
fn op(sh: &Shared, c: &Case, mut kind: usize) -> Result<(), (String, &'static str)> {
    if c.own.is_some() {
        kind |= 2;
    }
    match kind {
        0 | 1 => match guard(|| hash(&c.fqs)) {
            Ok(x) if x == c.want[1] => Ok(()),
            Ok(x) => Err((format!("hash_{} returned {}", c.rate, fe(&x).hex()), "hash")),
            Err(e) => Err((format!("hash_{} panicked: {}", c.rate, e), "hash")),
        },
        k => {
            let opt = k % 2 == 0;
            let name = if opt { "opt" } else { "unopt" };
            let r = guard(|| {
                with_rate!(c.rate, c.own, sh, p => {
                    let mut i = Instance::new(p);
                    let x = if opt { Inst::opt(&mut i, &c.fqs) } else { Inst::unopt(&mut i, &c.fqs) };
                    (x, Inst::words(&i))
                })
            });
            match r {
                Ok((x, w)) if x == c.want[1] && w == c.want => Ok(()),
                Ok((_, w)) => Err((format!("{} path left {}", name, show(&fev(&w))), name)),
                Err(e) => Err((format!("{} path panicked: {}", name, e), name)),
            }
        }
    }
}

/// What a thread does at its very end, when its thread-local values are dropped: one before and one after whatever the hashes
/// themselves may keep there.
struct AtExit {
    cases: Vec<(Vec<Fq>, Fq)>,
    bad: Arc<Mutex<Vec<(String, Vec<Fq>)>>>,
    done: Arc<AtomicU64>,
}
impl Drop for AtExit {
    fn drop(&mut self) {
        for (i, want) in &self.cases {
            match guard(|| hash(i)) {
                Ok(x) if x == *want => {}
                Ok(x) => self.bad.lock().unwrap().push((format!("returned {}", fe(&x).hex()), i.clone())),
                Err(e) => self.bad.lock().unwrap().push((format!("panicked: {}", e), i.clone())),
            }
            self.done.fetch_add(1, Relaxed);
        }
    }
}
thread_local! {
    static EARLY: std::cell::RefCell<Option<AtExit>> = const { std::cell::RefCell::new(None) };
    static LATE: std::cell::RefCell<Option<AtExit>> = const { std::cell::RefCell::new(None) };
}
/// Threads that hash until their thread-local values are gone. Returns the number of hashes made at the end.
fn ends(cases: &[Case], r: &mut Rng, bad: &Mutex<Vec<Bad>>) -> u64 {
    let wrong = Arc::new(Mutex::new(Vec::new()));
    let done = Arc::new(AtomicU64::new(0));
    let threads: Vec<_> = (0..4)
        .map(|_| {
            let some: Vec<(Vec<Fq>, Fq)> = (0..7)
                .map(|rate| {
                    // one of every rate
                    let k = r.below(cases.len());
                    let c = (0..cases.len()).map(|d| &cases[(k + d) % cases.len()]).find(|c| c.own.is_none() && c.rate == rate + 1);
                    c.unwrap_or(&cases[k])
                })
                .filter(|c| c.own.is_none())
                .map(|c| (c.fqs.clone(), c.want[1]))
                .collect();
            let (wrong, done, order) = (wrong.clone(), done.clone(), r.below(3));
            std::thread::spawn(move || {
                let at = |cases: &Vec<_>| Some(AtExit { cases: cases.clone(), bad: wrong.clone(), done: done.clone() });
                if order != 1 {
                    EARLY.with(|e| *e.borrow_mut() = at(&some));
                }
                for (i, _) in &some {
                    let _ = guard(|| hash(i));
                }
                if order != 0 {
                    LATE.with(|e| *e.borrow_mut() = at(&some));
                }
            })
        })
        .collect();
    for t in threads {
        t.join().expect("harness: the thread ends");
    }
    for (what, i) in wrong.lock().unwrap().iter() {
        let inp = fev(i);
        bad.lock().unwrap().push(Bad {
            what: if fresh("hash", &inp).is_some() { format!("a hash while the thread-local values of a thread are dropped {}", what) } else { String::new() },
            case: format!("hash_{} of {} in the destructor of a thread-local value", i.len() - 1, show(&inp)),
        });
    }
    done.load(SeqCst)
}

pub fn c06(ctx: &Ctx, refs: &[Ref]) -> Tally {
    let mut t = Tally::default();
    let mut rng = Rng::new(ctx.seed, 6);
    let first = ctx.arg == "first";
    let nown = if first { 1 } else { 4 };
    let sh = Shared::new(&mut rng, nown);
    needs_sync(&*sh);
    needs_sync(&Arc::new(RATE_3_PARAMS));
    needs_send(&Instance::new(&sh.p1));
    needs_send(&Instance::new(&sh.p7));
    let ncase = if first { 8 } else { 99 * GROUPS };
    let mut cases: Vec<Case> = Vec::new();
    for i in 0..ncase {
        let group = if first { rng.below(GROUPS) } else { i % GROUPS };
        if group > 6 {
            let rate = group - 6;
            let own = rng.below(nown);
            let (b, o) = custom(if rate == 1 { sh.own2[own].0 } else { sh.own3[own].0 });
            let plain = Plan::plain(&b);
            let fast = Plan::optimised(&b, &o);
            let (inp, _) = StateGen::new(&ctx.pool, vec![&plain, &fast]).next(&mut rng);
            let want = plain.run(&inp);
            cases.push(Case { rate, own: Some(own), fqs: fqv(&inp), want: fqv(&want), inp });
            continue;
        }
        let rate = group + 1;
        let mut g = StateGen::new(&ctx.pool, vec![&refs[rate - 1].plain, &refs[rate - 1].fast]);
        let (inp, _) = g.next(&mut rng);
        let want = refs[rate - 1].plain.run(&inp);
        cases.push(Case { rate, own: None, fqs: fqv(&inp), want: fqv(&want), inp });
    }
    let bad: Mutex<Vec<Bad>> = Mutex::new(Vec::new());
    let total = AtomicU64::new(0);
    let overlap = AtomicU64::new(0);
    let mut round = 0u64;
    while bad.lock().unwrap().is_empty() && (round < 2 || ctx.start.elapsed() < ctx.budget) && !(first && round == 1) {
        let nthreads = if first { 8 } else { [2, 3, 4, 8, 16][rng.below(5)] };
        let style = if first { rng.below(6) } else { rng.below(9) };
        // styles 6-8: two or three cases of one rate, one kind of operation, again and again without a pause, so that anything
        // remembered from one call to the next is read and written by several threads at once
        let hot_rate = rng.below(GROUPS);
        let hot: Vec<usize> = (0..2 + rng.below(2)).map(|_| (hot_rate + GROUPS * rng.below((cases.len() / GROUPS).max(1))) % cases.len()).collect();
        let hot_kind = [0, 0, 0, 2, 3][rng.below(5)];
        let barrier = Barrier::new(nthreads);
        let busy = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        // instances travel between the threads
        let (tx, rx) = std::sync::mpsc::channel::<((usize, Option<usize>), Box<dyn Inst + Send + '_>)>();
        let rx = Mutex::new(rx);
        let seed = rng.u64();
        let n = if first { 3 } else if style > 5 { 300 } else { 60 };
        std::thread::scope(|s| {
            for th in 0..nthreads {
                let tx = tx.clone();
                let hot = &hot;
                let (sh, cases, bad, total, overlap, barrier, busy, stop, rx) = (&sh, &cases, &bad, &total, &overlap, &barrier, &busy, &stop, &rx);
                s.spawn(move || {
                    let mut r = Rng::new(seed, th as u64);
                    barrier.wait();
                    for i in 0..n {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let k = match style {
                            0 => i % cases.len(),                       // all threads on the same case at the same time
                            1 => (th + i) % cases.len(),                // shifted
                            2 => (i * GROUPS + round as usize) % cases.len(), // the same rate throughout
                            3 => (i * GROUPS + th % GROUPS) % cases.len(),        // a rate per thread
                            6 => hot[th % hot.len()],
                            7 => hot[r.below(hot.len())],
                            8 => hot[(i / 3 + th) % hot.len()],
                            _ => r.below(cases.len()),
                        };
                        let c = &cases[k];
                        if busy.fetch_add(1, Relaxed) > 0 {
                            overlap.fetch_add(1, Relaxed);
                        }
                        let kind = if style > 5 { hot_kind } else { r.below(6) };
                        let res = if kind == 5 && !first {
                            // an instance created, used and finally read by different threads
                            let got = rx.lock().unwrap().try_recv().ok();
                            match got {
                                None => {
                                    let i: Box<dyn Inst + Send + '_> = with_rate!(c.rate, c.own, sh, p => Box::new(Instance::new(p)));
                                    let _ = tx.send(((c.rate, c.own), i));
                                    Ok(())
                                }
                                Some((rate, mut inst)) => {
                                    let c = &cases[(0..cases.len()).map(|d| (k + d) % cases.len()).find(|j| (cases[*j].rate, cases[*j].own) == rate).unwrap()];
                                    let r = guard(|| (inst.opt(&c.fqs), inst.words()));
                                    let ok = matches!(&r, Ok((x, w)) if *x == c.want[1] && *w == c.want);
                                    let _ = tx.send((rate, inst));
                                    if ok {
                                        Ok(())
                                    } else {
                                        Err((format!("an instance sent between threads gave {:?} for {}", r.map(|x| fe(&x.0)), show(&c.inp)), "opt"))
                                    }
                                }
                            }
                        } else {
                            op(sh, c, kind)
                        };
                        busy.fetch_sub(1, Relaxed);
                        total.fetch_add(1, Relaxed);
                        if let Err((what, name)) = res {
                            // is it wrong on its own, too? then it is not a matter of concurrency
                            let name_there = match c.own {
                                None => name.to_string(),
                                Some(k) => format!("{}@{}", name, if c.rate == 1 { sh.own2[k].0 } else { sh.own3[k].0 }),
                            };
                            let alone = fresh(&name_there, &c.inp);
                            let alone_ok = match &alone {
                                Some(v) if name == "hash" => v[0] == fe(&c.want[1]),
                                Some(v) => v[1..] == fev(&c.want)[..],
                                None => false,
                            };
                            bad.lock().unwrap().push(Bad {
                                what: if alone_ok { format!("{}, alone it gives {}", what, show(&fev(&c.want))) } else { String::new() },
                                case: format!("{} threads, style {}, rate {}, {}, state {}", nthreads, style, c.rate, name_there, show(&c.inp)),
                            });
                            stop.store(true, Relaxed);
                            break;
                        }
                        match r.below(if style > 5 { 64 } else { 8 }) {
                            0 => std::thread::yield_now(),
                            1 => {
                                for _ in 0..r.below(2000) {
                                    std::hint::spin_loop();
                                }
                            }
                            _ => {}
                        }
                    }
                });
            }
        });
        drop(tx);
        if !first && bad.lock().unwrap().is_empty() && round % 4 == 0 {
            let n = ends(&cases, &mut rng, &bad);
            total.fetch_add(n, Relaxed);
            t.count("operations_at_the_end_of_a_thread", n);
        }
        t.count(&format!("threads_{:02}", nthreads), 1);
        t.count(&format!("style_{}", style), 1);
        round += 1;
        t.eval(seed, true);
    }
    t.count("rounds", round);
    t.evals = total.load(SeqCst);
    t.count("operations", total.load(SeqCst));
    t.count("operations_started_while_another_was_running", overlap.load(SeqCst));
    t.count("distinct_cases", cases.len() as u64);
    for c in &cases {
        t.keys.push(key_of(c.rate as u64, &c.inp));
    }
    for b in bad.into_inner().unwrap() {
        if b.what.is_empty() {
            t.count("stopped_results_also_differ_from_the_specification_when_alone", 1);
        } else {
            t.fail(b.what, b.case);
        }
    }
    t.sample(|| format!("{} operations by 2-16 threads on shared parameters, {} of them started while another was running", total.load(SeqCst), overlap.load(SeqCst)));
    t
}
