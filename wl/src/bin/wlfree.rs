//! The workload in a program without std, libc, startup code or operating-system services of any kind (its own output and exit apart).
#![no_std]
#![no_main]
extern crate alloc;
use wl::{count, sys};

#[global_allocator]
static G: count::Bump = count::Bump;

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    use core::fmt::Write;
    let _ = writeln!(sys::Out, "PANIC {}", i);
    sys::exit(96)
}

#[cfg(target_arch = "x86_64")]
core::arch::global_asm!(".globl _start", "_start:", "mov rdi, rsp", "and rsp, -16", "call {m}", m = sym go);
#[cfg(target_arch = "x86")]
core::arch::global_asm!(".globl _start", "_start:", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call {m}", m = sym go);

unsafe fn arg(sp: *const usize, k: usize) -> u64 {
    let argc = *sp;
    if k + 1 >= argc {
        sys::exit(95)
    }
    let mut p = *sp.add(2 + k) as *const u8;
    let mut v = 0u64;
    while *p != 0 {
        v = v * 10 + (*p - b'0') as u64;
        p = p.add(1);
    }
    v
}

unsafe extern "C" fn go(sp: *const usize) -> ! {
    use core::fmt::Write;
    if *sp < 2 {
        // records on standard input
        sys::seccomp_strict();
        let mut buf = [0u8; 4096];
        let mut st = (0, 0);
        let mut next = |b: &mut [u8]| sys::fill(b, &mut buf, &mut st);
        wl::stream_report(&mut next, &mut sys::Out);
        sys::write(b"done\n");
        sys::exit(0)
    }
    let a: [u64; 6] = core::array::from_fn(|k| arg(sp, k));
    let mut o = sys::Out;
    let _ = writeln!(o, "pointer {} {}", usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" });
    sys::write(if sys::seccomp_strict() { b"strict\n" } else { b"nostrict\n" });
    count::run(a[0], a[1] as u32, a[2] as u32, a[3] as u32, a[4] as u32, a[5] as u32, &mut o);
    sys::write(b"done\n");
    sys::exit(0)
}
