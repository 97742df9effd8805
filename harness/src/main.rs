#![allow(dead_code, unused_imports, unused_macros)]
mod bridge;
#[cfg(feature = "conc")]
mod c_conc;
mod c_const;
#[cfg(feature = "gen")]
mod c_gen;
mod c_hash;
#[cfg(feature = "mat")]
mod c_mat;
#[cfg(feature = "gadgets")]
mod c_r1cs;
mod dynp;
mod gen;
mod merlin;
mod rep;
mod rf;
mod rounds;
mod spec;
mod world;

use rep::*;
use std::time::{Duration, Instant};

fn load_dict(path: &str) -> Vec<rf::Fe> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            // "i <hex>" canonical integer, "m <hex>" Montgomery representation
            let mut it = l.split_whitespace();
            if let (Some(k), Some(h)) = (it.next(), it.next()) {
                if let Some(x) = rf::Fe::from_hex(h) {
                    v.push(if k == "m" { rf::Fe::from_mont(x.to_int()) } else { x });
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

static OUT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
fn hang_report(what: String, chunk: u64) {
    let mut t = Tally::default();
    t.chunk = chunk;
    t.fail(what, format!("chunk {}", chunk));
    t.evals = 1;
    let _ = std::fs::write(OUT.get().unwrap(), to_json(t, 0.0));
    std::process::exit(0);
}

fn dispatch(check: &str, ctx: &Ctx, refs: &[spec::Ref]) -> Tally {
    match check {
        "C01" => c_hash::c01(ctx, refs),
        "C03" => c_hash::c03(ctx, refs),
        "C04" => c_hash::c04(ctx, refs),
        "C05" => c_hash::c05(ctx, refs),
        #[cfg(feature = "conc")]
        "C06" => c_conc::c06(ctx, refs),
        #[cfg(feature = "gen")]
        "C02" => c_gen::c02(ctx, refs),
        #[cfg(feature = "gadgets")]
        "C07" => c_r1cs::c07(ctx, refs),
        #[cfg(feature = "gadgets")]
        "C08" => c_r1cs::c08(ctx, refs),
        #[cfg(feature = "gadgets")]
        "C09" => c_r1cs::c09(ctx, refs),
        #[cfg(feature = "gadgets")]
        "C10" => c_r1cs::c10(ctx, refs),
        "C11" => c_const::c11(ctx),
        "C12" => c_const::c12(ctx),
        #[cfg(feature = "mat")]
        "C13" => c_mat::c13(ctx),
        #[cfg(feature = "mat")]
        "C14" => c_mat::c14(ctx),
        #[cfg(feature = "mat")]
        "C15" => c_mat::c15(ctx),
        #[cfg(feature = "mat")]
        "C16" => c_mat::c16(ctx),
        "C23" => c_const::c23(ctx),
        _ => {
            eprintln!("unknown check {}", check);
            std::process::exit(2);
        }
    }
}

/// Records for the workload program: states of every rate from the hostile generator, pairs of square matrices.
fn dump(ctx: &Ctx, refs: &[spec::Ref], n: u64) -> Vec<u8> {
    let mut r = gen::Rng::new(ctx.seed, 77);
    let mut o = Vec::new();
    let mut gens: Vec<_> = refs.iter().map(|f| gen::StateGen::new(&ctx.pool, vec![&f.plain, &f.fast])).collect();
    for k in 0..n {
        if k % 8 == 7 {
            let d = [1, 2, 3, 2, 3, 4, 3, 2, 1, 4, 3, 5][(k / 8 % 12) as usize];
            o.push(16 + d as u8);
            for _ in 0..2 {
                for x in gen::matrix(&mut r, &ctx.pool, d, d).0.d.iter() {
                    o.extend_from_slice(&x.to_bytes());
                }
            }
        } else {
            let rate = (k % 8) as usize + 1;
            let (v, _) = gens[rate - 1].next(&mut r);
            gens[rate - 1].note_output(refs[rate - 1].fast.run(&v)[1]);
            o.push(rate as u8);
            for x in v {
                o.extend_from_slice(&x.to_bytes());
            }
        }
    }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    if args.get(1).map(|s| s.as_str()) == Some("one") {
        std::process::exit(c_hash::one(&args[2..]));
    }
    let check = args.get(1).cloned().unwrap_or_default();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let ctx = Ctx {
        seed: num("--seed", 1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        budget: Duration::from_millis(num("--budget-ms", 10_000)),
        threads: num("--threads", 8) as usize,
        pool: gen::Pool::new(get("--dict").map(|p| load_dict(&p)).unwrap_or_default()),
        start: Instant::now(),
        only_chunk: get("--chunk").and_then(|s| s.parse().ok()),
        max_chunks: get("--max-chunks").and_then(|s| s.parse().ok()),
        min_chunks: num("--min-chunks", 14),
        arg: get("--arg").unwrap_or_default(),
    };
    HANG_CPU_SECS.store(num("--hang-secs", 100), std::sync::atomic::Ordering::SeqCst);
    let out = get("--out").unwrap_or_else(|| "/dev/stdout".into());
    let _ = OUT.set(out.clone());
    start_watchdog(hang_report);
    let refs = spec::shipped_refs();
    if let Err(e) = spec::self_check(&refs) {
        eprintln!("harness self-check failed: {}", e);
        std::process::exit(4);
    }
    if check == "dump" {
        std::fs::write(&out, dump(&ctx, &refs, num("--n", 1000))).expect("write records");
        return;
    }
    let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&check, &ctx, &refs)));
    let t = match run {
        Ok(t) => t,
        Err(_) => {
            let msg = UNGUARDED.lock().unwrap().clone().unwrap_or_default();
            if !msg.contains("/repo/poseidon") {
                eprintln!("harness panicked: {}", msg);
                std::process::exit(101);
            }
            let mut t = Tally::default();
            t.evals = 1;
            t.fail(format!("panicked: {}", msg), "a valid use of the public API (see the panic's location)");
            t
        }
    };
    let wall = ctx.start.elapsed().as_secs_f64();
    std::fs::write(&out, to_json(t, wall) + "\n").expect("write result");
}
