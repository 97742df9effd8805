//! wlub <seed> <n> <rates> <dim> <what> <reps> <rejected>: valid operations and, `rejected` times, operations that must be refused by
//! panicking, which are caught and followed by further use of the same objects. Meant for sanitizers, checked builds and Miri. Only
//! undefined behaviour counts here, so results merely go into a digest, which every build must be able to read without complaint.
//! Prints "UB <message>" for a panic that reports an arithmetic overflow or a violated precondition.
use poseidon377::*;
use poseidon_parameters::v1::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use wl::{Digest, Rec, Rng};

static PANICS: AtomicU64 = AtomicU64::new(0);
/// While objects are in use that no constructor gives, where an overflow that panics is as good a refusal as any.
static MALFORMED: AtomicBool = AtomicBool::new(false);

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        PANICS.fetch_add(1, Relaxed);
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let bad = [if MALFORMED.load(Relaxed) { "\0" } else { "attempt to " }, "unsafe precondition", "misaligned pointer", "null pointer", "invalid value", "entered unreachable"];
        if bad.iter().any(|b| m.contains(b)) || std::env::var_os("WL_PANICS").is_some() {
            println!("{} {} at {}", if bad.iter().any(|b| m.contains(b)) { "UB" } else { "panic" }, m.replace('\n', " "), at);
        }
    }));
}

fn put(d: &Digest, v: &[Fq]) {
    for x in v {
        d.bytes(&x.to_bytes());
    }
}

/// Indices at and beyond the edges. None are so large that computing with them overflows: in a checked build that panic would be the
/// caller's doing.
fn indices(g: &mut Rng, rows: usize, cols: usize) -> (usize, usize) {
    let odd = [0, 1, cols.wrapping_sub(1), cols, cols + 1, 2 * cols, rows, rows + 1, 63, 64, 1 << 16, 100, 200, 1000, 1 << 20];
    (odd[g.below(14) as usize], odd[g.below(14) as usize])
}
fn abuse<M: MatrixOperations + Clone + PartialEq>(d: &Digest, g: &mut Rng, m: &mut M, rows: usize, cols: usize, make: &dyn Fn(&[Fq]) -> M) {
    for _ in 0..6 {
        let (i, j) = indices(g, rows, cols);
        let x = g.word();
        if let Ok(y) = catch_unwind(AssertUnwindSafe(|| m.get_element(i, j))) {
            put(d, &[y]);
        }
        let _ = catch_unwind(AssertUnwindSafe(|| m.set_element(i, j, x)));
        put(d, m.elements());
        for r in m.iter_rows() {
            put(d, r);
        }
    }
    let n = rows * cols;
    for len in [0, 1, n.wrapping_sub(1), n, n + 1, 2 * n, n + 64] {
        if len > n + 64 + n {
            continue;
        }
        let v: Vec<Fq> = (0..len).map(|_| g.word()).collect();
        if let Ok(k) = catch_unwind(AssertUnwindSafe(|| make(&v))) {
            put(d, k.elements());
            for r in k.iter_rows() {
                put(d, r);
            }
            if let Ok(h) = m.hadamard_product(&k) {
                put(d, h.elements());
            }
        }
    }
    let c = m.clone();
    d.bytes(&[(c == *m) as u8]);
}

fn rows_of<const A: usize, const B: usize, const E: usize>(d: &Digest, g: &mut Rng, m: &Matrix<A, B, E>) {
    for _ in 0..4 {
        let (i, _) = indices(g, A, B);
        if let Ok(v) = catch_unwind(AssertUnwindSafe(|| m.row_vector(i))) {
            put(d, v.elements());
        }
    }
}

fn rect<const A: usize, const B: usize, const E: usize>(d: &Digest, g: &mut Rng) {
    let mut m = Matrix::<A, B, E>::new(&g.words::<E>());
    abuse(d, g, &mut m, A, B, &|v| Matrix::new(v));
    rows_of(d, g, &m);
    put(d, m.transpose().elements());
    let mut m = ArcMatrix::<A, B, E>::new(m.elements());
    abuse(d, g, &mut m, A, B, &|v| ArcMatrix::new(v));
    put(d, m.transpose().elements());
    put(d, &m.inner_elements());
    let mut m = OptimizedArcMatrix::<A, B, E>::new(m.elements());
    abuse(d, g, &mut m, A, B, &|v| OptimizedArcMatrix::new(v));
    put(d, m.transpose().elements());
}

fn square<const N: usize, const N1: usize, const E: usize, const E1: usize>(d: &Digest, g: &mut Rng) {
    let mut m = SquareMatrix::<N, E>::new(&g.words::<E>());
    abuse(d, g, &mut m, N, N, &|v| SquareMatrix::new(v));
    rows_of(d, g, &m.0);
    put(d, &[m.determinant()]);
    if let Ok(i) = m.inverse() {
        put(d, i.elements());
    }
    // singular, and the panicking inverse of the wrapper
    let zero = Fq::from(0u64);
    for j in 0..N {
        m.set_element(N - 1, j, zero);
    }
    if m.inverse().is_ok() {
        d.bytes(b"inverse of singular");
    }
    let mut w = MdsMatrix::<N, N1, E, E1>::new(m.elements());
    if let Ok(i) = catch_unwind(AssertUnwindSafe(|| w.inverse())) {
        put(d, i.elements());
    }
    abuse(d, g, &mut w, N, N, &|v| MdsMatrix::new(v));
    abuse(d, g, &mut w, N, N, &|v| MdsMatrix::from_elements(v));
    put(d, w.v().elements());
    put(d, w.w().elements());
    put(d, w.hat().elements());
}

/// The fields are public, so a matrix whose number of elements contradicts its dimensions can be written down. Whatever the operations
/// make of it, they must not leave its elements.
#[cfg(not(feature = "few"))]
fn misshapen<const A: usize, const B: usize, const E: usize>(d: &Digest, g: &mut Rng) {
    let mut m = Matrix::<A, B, E> { elements: g.words::<E>() };
    let k = g.word();
    let n = m.clone();
    let l = [
        catch_unwind(AssertUnwindSafe(|| put(d, m.transpose().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, (n.clone() * k).elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, m.hadamard_product(&n).unwrap().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, mat_mul::<A, B, E, A, B, E, E>(&m, &n).elements()))),
        catch_unwind(AssertUnwindSafe(|| m.iter_rows().for_each(|r| put(d, r)))),
        catch_unwind(AssertUnwindSafe(|| ArcMatrix(m.clone()).transpose().elements().iter().for_each(|x| put(d, &[*x])))),
        catch_unwind(AssertUnwindSafe(|| put(d, &ArcMatrix(m.clone()).inner_elements()))),
    ];
    d.bytes(&[l.iter().filter(|x| x.is_ok()).count() as u8, (m == n) as u8]);
    for i in 0..A + 1 {
        if let Ok(x) = catch_unwind(AssertUnwindSafe(|| m.row_vector(i))) {
            put(d, x.elements());
        }
        for j in 0..B + 1 {
            if let Ok(x) = catch_unwind(AssertUnwindSafe(|| m.get_element(i, j))) {
                put(d, &[x]);
            }
            let _ = catch_unwind(AssertUnwindSafe(|| m.set_element(i, j, k)));
        }
    }
    put(d, m.elements());
}
#[cfg(not(feature = "few"))]
fn misshapen_square<const N: usize, const N1: usize, const E: usize, const E1: usize>(d: &Digest, g: &mut Rng) {
    let m = SquareMatrix::<N, E>(Matrix { elements: g.words::<E>() });
    let w = MdsMatrix::<N, N1, E, E1>(m.clone());
    let k = g.word();
    let l = [
        catch_unwind(AssertUnwindSafe(|| put(d, &[m.determinant()]))),
        catch_unwind(AssertUnwindSafe(|| put(d, m.minors().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, m.cofactors().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, m.inverse().unwrap().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, m.transpose().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, (m.clone() * k).elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, square_mat_mul::<N, E, N, E, E>(&m, &m).elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, w.inverse().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, w.transpose().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, w.v().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, w.w().elements()))),
        catch_unwind(AssertUnwindSafe(|| put(d, w.hat().elements()))),
    ];
    d.bytes(&[l.iter().filter(|x| x.is_ok()).count() as u8]);
}
#[cfg(feature = "few")]
fn malformed(_: &Digest, _: &mut Rng) {}
#[cfg(not(feature = "few"))]
fn malformed(d: &Digest, g: &mut Rng) {
    misshapen::<2, 2, 3>(d, g);
    misshapen::<2, 3, 8>(d, g);
    misshapen::<3, 1, 2>(d, g);
    misshapen::<2, 2, 0>(d, g);
    misshapen::<0, 3, 2>(d, g);
    misshapen_square::<2, 1, 3, 1>(d, g);
    misshapen_square::<2, 1, 5, 1>(d, g);
    misshapen_square::<3, 2, 7, 4>(d, g);
    misshapen_square::<3, 2, 10, 4>(d, g);
    // shapes that fit, parts that do not
    misshapen_square::<3, 3, 9, 4>(d, g);
    misshapen_square::<3, 1, 9, 4>(d, g);
    misshapen_square::<2, 1, 4, 4>(d, g);
}

/// Instances over parameter sets whose round numbers do not match their constants: refused somewhere on the way, never unsound.
fn mismatched(d: &Digest, g: &mut Rng, deep: bool) {
    let base = RATE_1_PARAMS;
    let w: [Fq; 2] = g.words();
    let forms: &[(usize, usize)] = if deep { &[(8, 31), (10, 31), (8, 32), (8, 40), (2, 1), (7, 31), (80, 1), (8, 300), (4, 2)] } else { &[(4, 2), (2, 40)] };
    for (f, p) in forms {
        let mut q = base.clone();
        q.rounds = RoundNumbers { r_P: *p, r_F: *f };
        if !deep {
            q.alpha = Alpha::Exponent(2);
        }
        let mut i = Instance::new(&q);
        let r = catch_unwind(AssertUnwindSafe(|| i.n_to_1_fixed_hash(&w)));
        if let Ok(x) = r {
            put(d, &[x]);
        }
        put(d, &i.output_words());
        let r = catch_unwind(AssertUnwindSafe(|| i.unoptimized_n_to_1_fixed_hash(w)));
        if let Ok(x) = r {
            put(d, &[x]);
        }
        put(d, &i.output_words());
    }
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("number")).collect();
    hook();
    let d = Digest::new();
    let d = std::rc::Rc::new(d);
    if a.is_empty() {
        use std::io::Read;
        let mut i = std::io::BufReader::new(std::io::stdin());
        let mut n = 0;
        wl::stream(&*d, &mut |b| i.read_exact(b).is_ok(), &mut |_| n += 1);
        println!("records {} events {} ops {} panics {}", n, d.events.get(), d.ops.get(), PANICS.load(Relaxed));
        println!("digest {:x} done", d.h.get()[0]);
        return;
    }
    // which kinds of refused operations: 1, 2 square matrices, 4, 8 other matrices, 16 permutations, 32 inconsistent shapes
    let mask = a.get(7).copied().unwrap_or(63);
    for k in 0..a[5] {
        let r = catch_unwind(AssertUnwindSafe(|| wl::run(&*d, a[0] + 1000 * k, a[4] as u32, a[1] as u32, a[2] as u32, a[3] as u32)));
        if r.is_err() {
            println!("note: a valid operation panicked");
        }
        let mut g = Rng::new(a[0] + 77 + 1000 * k);
        for _ in 0..a[6] {
            let r = catch_unwind(AssertUnwindSafe(|| {
                if mask & 1 != 0 {
                    square::<1, 0, 1, 0>(&d, &mut g);
                    square::<2, 1, 4, 1>(&d, &mut g);
                }
                if mask & 2 != 0 {
                    square::<3, 2, 9, 4>(&d, &mut g);
                    if a[3] >= 4 {
                        square::<4, 3, 16, 9>(&d, &mut g);
                    }
                }
                if mask & 4 != 0 {
                    rect::<1, 2, 2>(&d, &mut g);
                    rect::<3, 1, 3>(&d, &mut g);
                }
                if mask & 8 != 0 {
                    rect::<2, 3, 6>(&d, &mut g);
                    if a[3] >= 4 {
                        rect::<5, 4, 20>(&d, &mut g);
                    }
                }
                if mask & 16 != 0 {
                    mismatched(&d, &mut g, a[3] >= 4);
                }
            }));
            if r.is_err() {
                println!("note: an operation outside a guard panicked");
            }
            if mask & 32 == 0 {
                continue;
            }
            MALFORMED.store(true, Relaxed);
            malformed(&d, &mut g);
            MALFORMED.store(false, Relaxed);
            // inconsistent dimensions
            let v: [Fq; 5] = g.words();
            for r in [
                catch_unwind(AssertUnwindSafe(|| Matrix::<2, 3, 5>::new(&v).elements().len())),
                catch_unwind(AssertUnwindSafe(|| Matrix::<2, 2, 5>::new_from_known(v).elements().len())),
                catch_unwind(AssertUnwindSafe(|| SquareMatrix::<2, 5>::new(&v).determinant().to_bytes()[0] as usize)),
                catch_unwind(AssertUnwindSafe(|| SquareMatrix::<3, 5>::new(&v).determinant().to_bytes()[0] as usize)),
                catch_unwind(AssertUnwindSafe(|| MdsMatrix::<3, 1, 5, 4>::new(&v).hat().elements().len())),
                catch_unwind(AssertUnwindSafe(|| MdsMatrix::<2, 1, 4, 4>::from_elements(&v[..4]).hat().elements().len())),
                catch_unwind(AssertUnwindSafe(|| mat_mul::<2, 2, 4, 2, 2, 4, 3>(&Matrix::new(&v[..4]), &Matrix::new(&v[..4])).elements().len())),
                catch_unwind(AssertUnwindSafe(|| mat_mul::<2, 2, 4, 1, 4, 4, 8>(&Matrix::new(&v[..4]), &Matrix::new(&v[..4])).elements().len())),
                catch_unwind(AssertUnwindSafe(|| mat_mul::<2, 2, 4, 2, 2, 4, 6>(&Matrix::new(&v[..4]), &Matrix::new(&v[..4])).elements().len())),
                catch_unwind(AssertUnwindSafe(|| mat_mul::<2, 1, 2, 1, 2, 2, 3>(&Matrix::new(&v[..2]), &Matrix::new(&v[..2])).elements().len())),
                catch_unwind(AssertUnwindSafe(|| mat_mul::<1, 2, 2, 2, 1, 2, 0>(&Matrix::new(&v[..2]), &Matrix::new(&v[..2])).elements().len())),
                catch_unwind(AssertUnwindSafe(|| square_mat_mul::<2, 4, 2, 4, 3>(&SquareMatrix::new(&v[..4]), &SquareMatrix::new(&v[..4])).elements().len())),
                catch_unwind(AssertUnwindSafe(|| square_mat_mul::<2, 4, 1, 1, 4>(&SquareMatrix::new(&v[..4]), &SquareMatrix::new(&v[..1])).elements().len())),
                catch_unwind(AssertUnwindSafe(|| square_mat_mul::<1, 1, 2, 4, 1>(&SquareMatrix::new(&v[..1]), &SquareMatrix::new(&v[..4])).elements().len())),
                catch_unwind(AssertUnwindSafe(|| square_mat_mul::<2, 4, 2, 4, 9>(&SquareMatrix::new(&v[..4]), &SquareMatrix::new(&v[..4])).elements().len())),
            ] {
                d.bytes(&[r.unwrap_or(200) as u8]);
            }
        }
    }
    println!("events {} ops {} panics {}", d.events.get(), d.ops.get(), PANICS.load(Relaxed));
    println!("digest {:x} done", d.h.get()[0]);
}
