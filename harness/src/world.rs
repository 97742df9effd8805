//! The surroundings of a call, changed under it: on a thread on which `Strange` is alive, every environment variable is set and
//! the clocks read something else. A hash must not notice. Only with the feature `hist`, which replaces two functions of libc.
use std::cell::Cell;

thread_local! {
    static KIND: Cell<u8> = const { Cell::new(0) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
}

pub struct Strange(u8);
impl Strange {
    pub fn new(kind: u8) -> Strange {
        Strange(KIND.with(|k| k.replace(kind)))
    }
}
impl Drop for Strange {
    fn drop(&mut self) {
        KIND.with(|k| k.set(self.0));
    }
}
/// Reads of the environment and of clocks by this thread while strange.
pub fn seen() -> u64 {
    SEEN.with(|s| s.replace(0))
}

#[cfg(all(feature = "hist", target_arch = "x86_64", target_env = "gnu"))]
mod libc_services {
    use super::{KIND, SEEN};
    use std::ffi::{c_char, c_int};
    extern "C" {
        static environ: *const *const c_char;
    }
    fn kind() -> u8 {
        let k = KIND.with(|k| k.get());
        if k != 0 {
            SEEN.with(|s| s.set(s.get() + 1));
        }
        k
    }
    #[no_mangle]
    unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        match kind() {
            0 => {}
            1 => return c"1".as_ptr(),
            2 => return c"".as_ptr(),
            3 => return c"true".as_ptr(),
            _ => return c"2147483648".as_ptr(),
        }
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let mut i = 0;
            while *name.add(i) != 0 && *name.add(i) == *(*e).add(i) {
                i += 1;
            }
            if *name.add(i) == 0 && *(*e).add(i) == b'=' as c_char {
                return (*e).add(i + 1);
            }
            e = e.add(1);
        }
        std::ptr::null()
    }
    #[no_mangle]
    unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut i64) -> c_int {
        let r = libc::syscall(libc::SYS_clock_gettime, clock, t) as c_int;
        let k = kind();
        if r == 0 && k != 0 {
            // years away, and at the edges of a second
            *t += [0, 1 << 30, 1 << 33, 77_777_777, 40_000_000][k as usize % 5];
            *t.add(1) = [0, 999_999_999, 1, 500_000_000, 0][k as usize % 5];
        }
        r
    }
}

/// Self-check: whether a changed environment is seen at all.
pub fn works() -> bool {
    let s = Strange::new(1);
    let ok = std::env::var_os("MON_NO_SUCH_VARIABLE").is_some();
    drop(s);
    seen();
    ok && std::env::var_os("MON_NO_SUCH_VARIABLE").is_none()
}
