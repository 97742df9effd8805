//! Running, recording and reporting.
use crate::gen::{Pool, Rng};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub budget: Duration,
    pub threads: usize,
    pub pool: Pool,
    pub start: Instant,
    pub only_chunk: Option<u64>,
    pub max_chunks: Option<u64>,
    pub min_chunks: u64,
    pub arg: String,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub what: String,
    pub case: String,
    pub chunk: u64,
}

#[derive(Default)]
pub struct Tally {
    pub evals: u64,
    pub trivial: u64,
    pub keys: Vec<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viol: Vec<Viol>,
    pub notes: Vec<String>,
    pub chunk: u64,
}
impl Tally {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(format!("max_{}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluated case, identified by a key for distinctness.
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.keys.push(key);
        } else {
            self.trivial += 1;
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn fail(&mut self, what: impl Into<String>, case: impl Into<String>) {
        if self.viol.len() < 8 {
            let c = self.chunk;
            self.viol.push(Viol { what: what.into(), case: case.into(), chunk: c });
        }
    }
    pub fn merge(&mut self, o: Tally) {
        self.evals += o.evals;
        self.trivial += o.trivial;
        self.keys.extend(o.keys);
        for (k, v) in o.counts {
            let e = self.counts.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.viol.extend(o.viol);
        self.notes.extend(o.notes);
    }
}

pub fn key_of(tag: u64, words: &[crate::rf::Fe]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ tag.wrapping_mul(0x9E3779B97F4A7C15);
    for w in words {
        for l in w.0 {
            h = (h ^ l).wrapping_mul(0xff51afd7ed558ccd);
            h ^= h >> 29;
        }
    }
    h
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static INSIDE: Cell<bool> = Cell::new(false);
    static SLOT: RefCell<Option<usize>> = RefCell::new(None);
}
/// First panic outside a guarded call.
pub static UNGUARDED: Mutex<Option<String>> = Mutex::new(None);
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("{} at {}", msg, loc);
        if !INSIDE.with(|i| i.get()) {
            eprintln!("unguarded panic: {}", full);
            let mut g = UNGUARDED.lock().unwrap();
            if g.is_none() {
                *g = Some(full.clone());
            }
        }
        // (gone when a thread is at its very end)
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = full);
    }));
}

// ---- watchdog: a single guarded call that burns far more CPU than any correct call can ----
struct Slot {
    seq: AtomicU64,
    inside: AtomicBool,
    clock: AtomicUsize,
    chunk: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const NEW_SLOT: Slot = Slot { seq: AtomicU64::new(0), inside: AtomicBool::new(false), clock: AtomicUsize::new(0), chunk: AtomicU64::new(0) };
static SLOTS: [Slot; 64] = [NEW_SLOT; 64];
static NSLOT: AtomicUsize = AtomicUsize::new(0);
pub static HANG_CPU_SECS: AtomicU64 = AtomicU64::new(100);

fn my_slot() -> Option<usize> {
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let i = NSLOT.fetch_add(1, SeqCst);
            if i < 64 {
                #[cfg(not(miri))]
                unsafe {
                    let mut c: libc::clockid_t = 0;
                    if libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) == 0 {
                        SLOTS[i].clock.store(c as u32 as usize + 1, SeqCst);
                    }
                }
            }
            *s = Some(i);
        }
        s.filter(|i| *i < 64)
    })
}
#[cfg(not(miri))]
fn cpu_of(clock: usize) -> Option<u64> {
    if clock == 0 {
        return None;
    }
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime((clock - 1) as u32 as libc::clockid_t, &mut ts) == 0 {
            Some(ts.tv_sec as u64)
        } else {
            None
        }
    }
}
#[cfg(not(miri))]
pub fn start_watchdog(report: fn(String, u64)) {
    std::thread::spawn(move || {
        let mut seen = [(u64::MAX, 0u64); 64];
        loop {
            std::thread::sleep(Duration::from_secs(2));
            for (i, s) in SLOTS.iter().enumerate() {
                let seq = s.seq.load(SeqCst);
                if !s.inside.load(SeqCst) {
                    seen[i].0 = u64::MAX;
                    continue;
                }
                let cpu = match cpu_of(s.clock.load(SeqCst)) {
                    Some(c) => c,
                    None => continue,
                };
                if seen[i].0 != seq {
                    seen[i] = (seq, cpu);
                } else if cpu.saturating_sub(seen[i].1) > HANG_CPU_SECS.load(SeqCst) {
                    report(format!("a call has used more than {} s of CPU without returning", HANG_CPU_SECS.load(SeqCst)), s.chunk.load(SeqCst));
                }
            }
        }
    });
}
#[cfg(miri)]
pub fn start_watchdog(_report: fn(String, u64)) {}

/// Call into the code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = my_slot();
    if let Some(i) = slot {
        SLOTS[i].seq.fetch_add(1, SeqCst);
        SLOTS[i].inside.store(true, SeqCst);
    }
    let outer = INSIDE.with(|i| i.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.with(|i| i.set(outer));
    if let Some(i) = slot {
        SLOTS[i].inside.store(false, SeqCst);
    }
    r.map_err(|e: Box<dyn Any + Send>| {
        drop(e);
        LAST_PANIC.try_with(|p| p.borrow().clone()).unwrap_or_else(|_| "(message gone)".to_string())
    })
}

/// Run chunks of work on all threads until the budget is used up (at least `min_chunks`).
pub fn parallel(ctx: &Ctx, f: impl Fn(u64, &mut Rng, &mut Tally) + Sync) -> Tally {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Tally::default());
    let run_chunk = |c: u64, t: &mut Tally| {
        t.chunk = c;
        let mut r = Rng::new(ctx.seed, c.wrapping_mul(0xA24BAED4963EE407).wrapping_add(17));
        if let Some(i) = my_slot() {
            SLOTS[i].chunk.store(c, SeqCst);
        }
        f(c, &mut r, t);
    };
    if let Some(c) = ctx.only_chunk {
        let mut t = Tally::default();
        run_chunk(c, &mut t);
        return t;
    }
    std::thread::scope(|s| {
        for _ in 0..ctx.threads {
            // the frames of an AddressSanitizer build are large
            let b = std::thread::Builder::new().stack_size(64 << 20);
            b.spawn_scoped(s, || {
                let mut t = Tally::default();
                loop {
                    if stop.load(Relaxed) {
                        break;
                    }
                    let c = next.fetch_add(1, SeqCst);
                    if let Some(m) = ctx.max_chunks {
                        if c >= m {
                            break;
                        }
                    }
                    if c >= ctx.min_chunks && ctx.start.elapsed() > ctx.budget {
                        break;
                    }
                    run_chunk(c, &mut t);
                    if !t.viol.is_empty() {
                        stop.store(true, Relaxed);
                        break;
                    }
                }
                let mut g = total.lock().unwrap();
                g.merge(t);
            })
            .expect("harness: thread");
        }
    });
    let mut t = total.into_inner().unwrap();
    t.count("chunks", next.load(SeqCst).min(ctx.max_chunks.unwrap_or(u64::MAX)));
    t
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn to_json(mut t: Tally, wall: f64) -> String {
    t.keys.sort_unstable();
    t.keys.dedup();
    let mut s = String::from("{");
    s += &format!("\"evaluations\":{},\"distinct\":{},\"trivial\":{},\"wall_s\":{:.3},", t.evals, t.keys.len(), t.trivial, wall);
    s += "\"counts\":{";
    s += &t.counts.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"samples\":[";
    s += &t.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",");
    s += "],\"notes\":[";
    s += &t.notes.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",");
    s += "],\"violations\":[";
    s += &t
        .viol
        .iter()
        .map(|v| format!("{{\"what\":{},\"case\":{},\"chunk\":{}}}", json_str(&v.what), json_str(&v.case), v.chunk))
        .collect::<Vec<_>>()
        .join(",");
    s += "]}";
    s
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
