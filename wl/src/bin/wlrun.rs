//! wlrun <seed> <n> <rates> <dim> <what> <reps>: prints one digest per part and repetition.
//! wlrun: the same for every record on standard input.
//! wlrun trace <the same arguments>: prints every operation and its results instead.
use std::io::{Read, Write};

#[derive(Default)]
struct Trace(std::cell::Cell<&'static str>);
impl wl::Rec for Trace {
    fn begin(&self, op: &'static str) {
        self.0.set(op);
    }
    fn end(&self) {}
    fn bytes(&self, b: &[u8]) {
        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        println!("{}: {}", self.0.get(), h);
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().skip(1).collect();
    let trace = a.first().map(|s| s == "trace").unwrap_or(false);
    if trace {
        a.remove(0);
    }
    let a: Vec<u64> = a.iter().map(|x| x.parse().expect("number")).collect();
    let mut i = std::io::BufReader::new(std::io::stdin());
    let mut s = String::new();
    match (a.is_empty(), trace) {
        (true, true) => wl::stream(&Trace::default(), &mut |b| i.read_exact(b).is_ok(), &mut |k| println!("record {}", k)),
        (true, false) => wl::stream_report(&mut |b| i.read_exact(b).is_ok(), &mut s),
        (false, true) => {
            for k in 0..a[5] {
                wl::run(&Trace::default(), a[0] + 1000 * k, a[4] as u32, a[1] as u32, a[2] as u32, a[3] as u32);
            }
        }
        (false, false) => {
            println!("pointer {} {}", usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" });
            wl::report(a[0], a[1] as u32, a[2] as u32, a[3] as u32, a[4] as u32, a[5] as u32, &mut s);
        }
    }
    std::io::stdout().write_all(s.as_bytes()).expect("write");
    println!("done");
}
