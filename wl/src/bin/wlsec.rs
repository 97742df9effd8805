//! wlsec: the same over records on standard input.
//! wlsec <seed> <n> <rates> <dim> <what> <reps>: the workload with heap allocations and uses of some services of the C library
//! counted, under a seccomp filter: any system call other than this program's own reports and exit kills the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering::Relaxed;
use wl::{count, sys};

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count::note(&l);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;

/// Functions of the C library, defined here so that their use is seen although it may take no system call.
#[cfg(all(target_arch = "x86_64", target_env = "gnu"))]
mod libc_services {
    use std::ffi::{c_char, c_int, c_void};
    use wl::count::note_os;
    extern "C" {
        fn __libc_malloc(n: usize) -> *mut c_void;
        fn __libc_calloc(n: usize, k: usize) -> *mut c_void;
        fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
        static environ: *const *const c_char;
    }
    #[no_mangle]
    unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
        note_os(0);
        __libc_malloc(n)
    }
    #[no_mangle]
    unsafe extern "C" fn calloc(n: usize, k: usize) -> *mut c_void {
        note_os(0);
        __libc_calloc(n, k)
    }
    #[no_mangle]
    unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
        note_os(0);
        __libc_realloc(p, n)
    }
    #[no_mangle]
    unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        note_os(1);
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let mut i = 0;
            while *name.add(i) != 0 && *name.add(i) == *(*e).add(i) {
                i += 1;
            }
            if *name.add(i) == 0 && *(*e).add(i) == b'=' as c_char {
                return (*e).add(i + 1);
            }
            e = e.add(1);
        }
        std::ptr::null()
    }
    #[no_mangle]
    unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut c_void) -> c_int {
        note_os(2);
        wl::sys::syscall3(228, clock as usize, t as usize, 0) as c_int
    }
    #[no_mangle]
    unsafe extern "C" fn time(t: *mut i64) -> i64 {
        note_os(3);
        wl::sys::syscall3(201, t as usize, 0, 0) as i64
    }
    #[no_mangle]
    unsafe extern "C" fn __cxa_thread_atexit_impl(_f: *const c_void, _o: *const c_void, _d: *const c_void) -> c_int {
        // (the destructors of thread-local variables are not run: this program ends by exit)
        note_os(4);
        0
    }
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("number")).collect();
    let probe = a.get(6).copied().unwrap_or(0);
    let strict = sys::confine();
    let mut o = sys::Out;
    sys::write(if strict { b"strict\n" } else { b"nostrict\n" });
    if a.is_empty() {
        let mut buf = [0u8; 4096];
        let mut st = (0, 0);
        count::stream_run(&mut |b| sys::fill(b, &mut buf, &mut st), &mut o);
        sys::write(b"done\n");
        sys::exit(0);
    }
    if probe == 1 {
        // self-test: an operating system call must be fatal
        let _ = std::fs::metadata("/");
    }
    if probe == 3 {
        // so must a message on standard error
        eprintln!("probe");
    }
    if probe == 4 {
        let r = count::Armed::new();
        wl::Rec::begin(&r, "probe");
        std::hint::black_box(std::env::var_os("HOME"));
        wl::Rec::end(&r);
        count::report_os(&r, &mut o);
    }
    if probe == 2 {
        // self-test: an allocation must be seen
        let r = count::Armed::new();
        wl::Rec::begin(&r, "probe");
        let v = std::hint::black_box(Vec::<u8>::with_capacity(100));
        wl::Rec::end(&r);
        drop(v);
        let _ = core::fmt::write(&mut o, format_args!("ALLOCATIONS {} bytes {} part probe first {}\n", count::COUNT.load(Relaxed), count::BYTES.load(Relaxed), r.first()));
        count::report_os(&r, &mut o);
    }
    count::run(a[0], a[1] as u32, a[2] as u32, a[3] as u32, a[4] as u32, a[5] as u32, &mut o);
    sys::write(b"done\n");
    sys::exit(0);
}
