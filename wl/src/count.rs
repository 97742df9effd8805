//! An allocator that counts, and names the operation under way.
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static COUNT: AtomicUsize = AtomicUsize::new(0);
pub static BYTES: AtomicUsize = AtomicUsize::new(0);
pub static OP: AtomicUsize = AtomicUsize::new(0);
pub static FIRST_OP: AtomicUsize = AtomicUsize::new(usize::MAX);

pub fn note(l: &Layout) {
    if ARMED.load(Relaxed) {
        if COUNT.fetch_add(1, Relaxed) == 0 {
            FIRST_OP.store(OP.load(Relaxed), Relaxed);
        }
        BYTES.fetch_add(l.size(), Relaxed);
    }
}

/// Uses of the C library's services (wlsec defines some of its functions).
pub static OS: AtomicUsize = AtomicUsize::new(0);
static OS_NAME: AtomicUsize = AtomicUsize::new(0);
static OS_OP: AtomicUsize = AtomicUsize::new(0);
const OS_NAMES: [&str; 5] = ["malloc", "getenv", "clock_gettime", "time", "__cxa_thread_atexit_impl"];
pub fn note_os(name: usize) {
    if ARMED.load(Relaxed) && OS.fetch_add(1, Relaxed) == 0 {
        OS_NAME.store(name, Relaxed);
        OS_OP.store(OP.load(Relaxed), Relaxed);
    }
}
pub fn report_os(r: &Armed, out: &mut dyn core::fmt::Write) {
    let n = OS.swap(0, Relaxed);
    if n > 0 {
        let op = r.names.get().get(OS_OP.load(Relaxed)).copied().unwrap_or("none");
        let _ = writeln!(out, "SERVICES {} {} first {}", n, OS_NAMES[OS_NAME.load(Relaxed)], op);
    }
}

/// Memory comes from a fixed arena and is never returned.
pub struct Bump;
const ARENA: usize = 8 << 20;
#[repr(align(64))]
struct Arena(core::cell::UnsafeCell<[u8; ARENA]>);
unsafe impl Sync for Arena {}
static MEM: Arena = Arena(core::cell::UnsafeCell::new([0; ARENA]));
static TOP: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(&l);
        let a = l.align().max(16);
        let n = (l.size() + a - 1) / a * a + a;
        let t = TOP.fetch_add(n, Relaxed);
        if t + n > ARENA {
            return core::ptr::null_mut();
        }
        let p = MEM.0.get() as *mut u8 as usize + t;
        ((p + a - 1) / a * a) as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}

/// A recorder that arms the allocation counter between begin and end, and keeps the digest.
pub struct Armed {
    pub d: crate::Digest,
    pub names: core::cell::Cell<[&'static str; 64]>,
}
impl Armed {
    pub fn new() -> Armed {
        Armed { d: crate::Digest::new(), names: core::cell::Cell::new([""; 64]) }
    }
    pub fn first(&self) -> &'static str {
        self.names.get().get(FIRST_OP.load(Relaxed)).copied().unwrap_or("none")
    }
}
impl crate::Rec for Armed {
    fn begin(&self, op: &'static str) {
        let mut n = self.names.get();
        let k = n.iter().position(|x| *x == op || x.is_empty()).unwrap_or(63);
        n[k] = op;
        self.names.set(n);
        OP.store(k, Relaxed);
        self.d.begin(op);
        ARMED.store(true, Relaxed);
    }
    fn end(&self) {
        ARMED.store(false, Relaxed);
    }
    fn bytes(&self, b: &[u8]) {
        self.d.bytes(b);
    }
}

/// The monitored run: one line per part with digest, operations, allocations; afterwards "first <operation that allocated first>".
pub fn run(seed: u64, n: u32, rates: u32, dim: u32, what: u32, reps: u32, out: &mut dyn core::fmt::Write) {
    for k in 0..reps {
        for (name, bit) in crate::PARTS {
            if what & bit == 0 || (k > 0 && matches!(bit, crate::PARAMS | crate::MANY)) {
                continue;
            }
            let r = Armed::new();
            COUNT.store(0, Relaxed);
            BYTES.store(0, Relaxed);
            crate::run(&r, seed.wrapping_add(k as u64 * 1000), bit, n, rates, dim);
            let h = r.d.h.get();
            let _ = writeln!(out, "{} {} {:016x}{:016x} {} {}", name, k, h[0], h[1], r.d.events.get(), r.d.ops.get());
            report_os(&r, out);
            let c = COUNT.load(Relaxed);
            if c > 0 {
                let _ = writeln!(out, "ALLOCATIONS {} bytes {} part {} first {}", c, BYTES.load(Relaxed), name, r.first());
            }
        }
    }
}

/// The same over records.
pub fn stream_run(fill: &mut dyn FnMut(&mut [u8]) -> bool, out: &mut dyn core::fmt::Write) {
    let r = Armed::new();
    COUNT.store(0, Relaxed);
    let mut n = 0u32;
    crate::stream(&r, fill, &mut |k| {
        n = k + 1;
        let c = COUNT.swap(0, Relaxed);
        if c > 0 {
            let _ = writeln!(out, "ALLOCATIONS {} bytes {} record {} first {}", c, BYTES.swap(0, Relaxed), k, r.first());
        }
    });
    report_os(&r, out);
    let _ = writeln!(out, "records {} ops {}", n, r.d.ops.get());
}
