//! Raw Linux system calls (x86-64 and i386), so that the monitored programs need neither std nor libc for what they do themselves.
#[cfg(target_arch = "x86_64")]
pub unsafe fn syscall3(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, lateout("rcx") _, lateout("r11") _);
    r
}
#[cfg(target_arch = "x86")]
pub unsafe fn syscall3(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    core::arch::asm!("int 0x80", inlateout("eax") n as isize => r, in("ebx") a, in("ecx") b, in("edx") c);
    r
}
#[cfg(target_arch = "x86_64")]
mod nr {
    pub const READ: usize = 0;
    pub const WRITE: usize = 1;
    pub const EXIT: usize = 60;
    pub const PRCTL: usize = 157;
    pub const DUP2: usize = 33;
}
#[cfg(target_arch = "x86")]
mod nr {
    pub const READ: usize = 3;
    pub const WRITE: usize = 4;
    pub const EXIT: usize = 1;
    pub const PRCTL: usize = 172;
}
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
/// The descriptors of this program's own reports and input.
static OUT: AtomicUsize = AtomicUsize::new(1);
static IN: AtomicUsize = AtomicUsize::new(0);

pub fn write(s: &[u8]) {
    let mut s = s;
    while !s.is_empty() {
        let k = unsafe { syscall3(nr::WRITE, OUT.load(Relaxed), s.as_ptr() as usize, s.len()) };
        if k <= 0 {
            exit(97);
        }
        s = &s[k as usize..];
    }
}
/// Some bytes from standard input; 0 at its end.
pub fn read_some(b: &mut [u8]) -> usize {
    let k = unsafe { syscall3(nr::READ, IN.load(Relaxed), b.as_mut_ptr() as usize, b.len()) };
    if k > 0 {
        k as usize
    } else {
        0
    }
}
/// Fill `b` from standard input through a buffer; false at the end.
pub fn fill(b: &mut [u8], buf: &mut [u8], st: &mut (usize, usize)) -> bool {
    for x in b.iter_mut() {
        if st.0 == st.1 {
            *st = (0, read_some(buf));
            if st.1 == 0 {
                return false;
            }
        }
        *x = buf[st.0];
        st.0 += 1;
    }
    true
}
pub fn exit(code: usize) -> ! {
    unsafe {
        syscall3(nr::EXIT, code, 0, 0);
    }
    loop {}
}
/// From here on the kernel kills the process at any system call except read, write, exit and sigreturn.
pub fn seccomp_strict() -> bool {
    unsafe { syscall3(nr::PRCTL, 22, 1, 0) == 0 }
}
#[cfg(target_arch = "x86_64")]
unsafe fn syscall5(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, lateout("rcx") _, lateout("r11") _);
    r
}
#[repr(C)]
struct Insn {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    insns: *const Insn,
}
/// From here on the kernel kills the process at any system call except reading descriptor 78, writing descriptor 77 (which are
/// this program's standard input and output, moved there) and exit.
#[cfg(target_arch = "x86_64")]
pub fn confine() -> bool {
    const fn ins(code: u16, jt: u8, jf: u8, k: u32) -> Insn {
        Insn { code, jt, jf, k }
    }
    const KILL: u32 = 0x8000_0000;
    const ALLOW: u32 = 0x7fff_0000;
    let f = [
        ins(0x20, 0, 0, 4),                       // architecture
        ins(0x15, 0, 9, 0xC000_003E),             // x86-64, else kill
        ins(0x20, 0, 0, 0),                       // number
        ins(0x15, 6, 0, nr::EXIT as u32),         // exit: allow
        ins(0x15, 0, 2, nr::READ as u32),         // read?
        ins(0x20, 0, 0, 16),                      //   descriptor
        ins(0x15, 3, 4, 78),                      //   78: allow, else kill
        ins(0x15, 0, 3, nr::WRITE as u32),        // write? else kill
        ins(0x20, 0, 0, 16),                      //   descriptor
        ins(0x15, 0, 1, 77),                      //   77: allow, else kill
        ins(0x06, 0, 0, ALLOW),
        ins(0x06, 0, 0, KILL),
    ];
    unsafe {
        if syscall3(nr::DUP2, 1, 77, 0) != 77 || syscall3(nr::DUP2, 0, 78, 0) != 78 {
            return false;
        }
        OUT.store(77, Relaxed);
        IN.store(78, Relaxed);
        let p = Prog { len: f.len() as u16, insns: f.as_ptr() };
        // no new privileges, then a filter
        syscall5(nr::PRCTL, 38, 1, 0, 0, 0) == 0 && syscall5(nr::PRCTL, 22, 2, &p as *const Prog as usize, 0, 0) == 0
    }
}
/// Standard output, unbuffered.
pub struct Out;
impl core::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        write(s.as_bytes());
        Ok(())
    }
}
