//! C13-C16: the matrix types.
use crate::bridge::*;
use crate::dynp::{mat, show};
use crate::gen::*;
use crate::rep::*;
use crate::rf::Fe;
use crate::spec::Mat;
use poseidon_parameters::v1::{
    mat_mul, square_mat_mul, ArcMatrix, Matrix, MatrixOperations, MdsMatrix, OptimizedArcMatrix, SquareMatrix, SquareMatrixOperations,
};

type R<T> = Result<T, String>;

/// Build a typed matrix in one of several ways.
fn mk<M: MatrixOperations, const E: usize>(m: &Mat, how: u64, known: fn([Fq; E]) -> M) -> M {
    let e: [Fq; E] = fqs::<E>(&m.d);
    match how % 4 {
        0 => M::new(&e),
        1 => known(e),
        2 => {
            let mut x = M::new(&[Fq::from(0u64); E]);
            for i in 0..m.r {
                for j in 0..m.c {
                    x.set_element(i, j, fq(m.at(i, j)));
                }
            }
            x
        }
        _ => {
            let mut x = known([Fq::from(7u64); E]);
            for j in (0..m.c).rev() {
                for i in (0..m.r).rev() {
                    x.set_element(i, j, fq_bytes(m.at(i, j)));
                }
            }
            x
        }
    }
}

/// Square matrices of one size.
pub trait Sq: Sync {
    fn n(&self) -> usize;
    fn inverse(&self, m: &Mat, how: u64) -> R<Result<Mat, String>>;
    fn mds_inverse(&self, m: &Mat, how: u64) -> R<Mat>;
    fn det(&self, m: &Mat, how: u64) -> R<Fe>;
    fn minors(&self, m: &Mat, how: u64) -> R<Mat>;
    fn cofactors(&self, m: &Mat, how: u64) -> R<Mat>;
    fn identity(&self) -> R<Mat>;
    fn mul(&self, a: &Mat, b: &Mat, how: u64) -> R<Mat>;
    fn transpose(&self, m: &Mat, how: u64) -> R<Mat>;
    fn scale(&self, m: &Mat, f: Fe, how: u64) -> R<Mat>;
    /// v, w, hat, transpose of the MDS wrapper
    fn mds_parts(&self, m: &Mat, how: u64) -> R<[Mat; 4]>;
    fn storage(&self, m: &Mat, r: &mut Rng, pool: &Pool, t: &mut Tally);
    fn reject(&self, r: &mut Rng, t: &mut Tally);
}
pub struct S<const N: usize, const E: usize, const N1: usize, const E1: usize>;
/// The public tuple constructors; with the feature `few` (types that have since gained fields of their own) the ordinary ones.
macro_rules! wraps {
    ($($f:ident<$(const $p:ident),*>($a:ty) -> $t:ident;)*) => { $(
        fn $f<$(const $p: usize),*>(m: $a) -> $t<$($p),*> {
            #[cfg(not(feature = "few"))]
            return $t(m);
            #[cfg(feature = "few")]
            return MatrixOperations::new(m.elements());
        }
    )* };
}
wraps! {
    wrap_square<const N, const E>(Matrix<N, N, E>) -> SquareMatrix;
    wrap_mds<const N, const N1, const E, const E1>(SquareMatrix<N, E>) -> MdsMatrix;
    wrap_arc<const N, const M, const E>(Matrix<N, M, E>) -> ArcMatrix;
    wrap_oarc<const N, const M, const E>(ArcMatrix<N, M, E>) -> OptimizedArcMatrix;
}
fn unchanged<M: MatrixOperations>(x: &M, m: &Mat) -> R<()> {
    if fev(x.elements()) == m.d {
        Ok(())
    } else {
        Err("operand modified".into())
    }
}
impl<const N: usize, const E: usize, const N1: usize, const E1: usize> S<N, E, N1, E1> {
    fn sq(m: &Mat, how: u64) -> SquareMatrix<N, E> {
        if how % 5 == 4 {
            wrap_square(mk(m, how / 5, Matrix::new_from_known))
        } else {
            mk(m, how / 5, SquareMatrix::new_from_known)
        }
    }
    fn mds(m: &Mat, how: u64) -> MdsMatrix<N, N1, E, E1> {
        match how % 5 {
            4 => wrap_mds(Self::sq(m, how / 5)),
            3 => MdsMatrix::from_elements(&fqs::<E>(&m.d)),
            _ => mk(m, how / 5, MdsMatrix::new_from_known),
        }
    }
}
impl<const N: usize, const E: usize, const N1: usize, const E1: usize> Sq for S<N, E, N1, E1> {
    fn n(&self) -> usize {
        N
    }
    fn inverse(&self, m: &Mat, how: u64) -> R<Result<Mat, String>> {
        guard(|| {
            let x = Self::sq(m, how);
            let r = x.inverse();
            unchanged(&x, m).map(|_| match r {
                Ok(y) => Ok(mat(&y)),
                Err(e) => Err(format!("{:?}", e)),
            })
        })?
    }
    fn mds_inverse(&self, m: &Mat, how: u64) -> R<Mat> {
        guard(|| {
            let x = Self::mds(m, how);
            let y = x.inverse();
            unchanged(&x, m).map(|_| mat(&y))
        })?
    }
    fn det(&self, m: &Mat, how: u64) -> R<Fe> {
        guard(|| {
            let x = Self::sq(m, how);
            let d = x.determinant();
            unchanged(&x, m).map(|_| fe(&d))
        })?
    }
    fn minors(&self, m: &Mat, how: u64) -> R<Mat> {
        guard(|| {
            let x = Self::sq(m, how);
            let y = x.minors();
            unchanged(&x, m).map(|_| mat(&y))
        })?
    }
    fn cofactors(&self, m: &Mat, how: u64) -> R<Mat> {
        guard(|| {
            let x = Self::sq(m, how);
            let y = x.cofactors();
            unchanged(&x, m).map(|_| mat(&y))
        })?
    }
    fn identity(&self) -> R<Mat> {
        guard(|| mat(&SquareMatrix::<N, E>::identity()))
    }
    fn mul(&self, a: &Mat, b: &Mat, how: u64) -> R<Mat> {
        guard(|| {
            let x = Self::sq(a, how);
            let y = Self::sq(b, how / 25);
            let z: SquareMatrix<N, E> = if a == b { square_mat_mul(&x, &x) } else { square_mat_mul(&x, &y) };
            let z2: Matrix<N, N, E> = mat_mul(&x.0, &y.0);
            if a == b {
                let z3: Matrix<N, N, E> = mat_mul(&x.0, &x.0);
                if mat(&z3) != mat(&z2) {
                    return Err(format!("mat_mul gives {} when both operands are the same object, and {} otherwise", show(&mat(&z3).d), show(&mat(&z2).d)));
                }
            }
            unchanged(&x, a)?;
            unchanged(&y, b)?;
            if mat(&z2) != mat(&z) {
                return Err(format!("square_mat_mul gives {} but mat_mul gives {}", show(&mat(&z).d), show(&mat(&z2).d)));
            }
            Ok(mat(&z))
        })?
    }
    fn transpose(&self, m: &Mat, how: u64) -> R<Mat> {
        guard(|| {
            let x = Self::sq(m, how);
            let y = x.transpose();
            unchanged(&x, m).map(|_| mat(&y))
        })?
    }
    fn scale(&self, m: &Mat, f: Fe, how: u64) -> R<Mat> {
        guard(|| mat(&(Self::sq(m, how) * fq(f))))
    }
    fn mds_parts(&self, m: &Mat, how: u64) -> R<[Mat; 4]> {
        guard(|| {
            let x = Self::mds(m, how);
            let o = [mat(&x.v()), mat(&x.w()), mat(&x.hat()), mat(&x.transpose())];
            unchanged(&x, m).map(|_| o)
        })?
    }
    fn storage(&self, m: &Mat, r: &mut Rng, pool: &Pool, t: &mut Tally) {
        let how = r.u64();
        if let Err(e) = guard(|| history(Self::sq(m, how), m, r, pool, "SquareMatrix")).and_then(|x| x) {
            t.fail(e, show(&m.d));
        }
        if N > 1 {
            if let Err(e) = guard(|| history(Self::mds(m, how), m, r, pool, "MdsMatrix")).and_then(|x| x) {
                t.fail(e, show(&m.d));
            }
        }
        let rows = guard(|| {
            let x = Self::sq(m, how);
            (0..N).map(|i| mat(&x.row_vector(i))).collect::<Vec<_>>()
        });
        match rows {
            Err(e) => t.fail(format!("row_vector panicked: {}", e), show(&m.d)),
            Ok(v) => {
                for (i, x) in v.iter().enumerate() {
                    if (x.r, x.c) != (1, N) || x.d[..] != m.d[i * N..i * N + N] {
                        t.fail(format!("row_vector({}) of a {}x{} matrix is {}", i, N, N, show(&x.d)), show(&m.d));
                    }
                }
            }
        }
        t.count("row_vectors", N as u64);
    }
    fn reject(&self, r: &mut Rng, t: &mut Tally) {
        for n in 0..E + 4 {
            let v: Vec<Fq> = (0..n).map(|_| fq(r.fe())).collect();
            let ok = n == E;
            accept(t, &format!("SquareMatrix<{},{}>::new with {} elements", N, E, n), ok, guard(|| SquareMatrix::<N, E>::new(&v)));
            accept(t, &format!("Matrix<{},{},{}>::new with {} elements", N, N, E, n), ok, guard(|| Matrix::<N, N, E>::new(&v)));
            if N > 1 {
                accept(t, &format!("MdsMatrix<{}>::new with {} elements", N, n), ok, guard(|| MdsMatrix::<N, N1, E, E1>::new(&v)));
                accept(t, &format!("MdsMatrix<{}>::from_elements with {} elements", N, n), ok, guard(|| MdsMatrix::<N, N1, E, E1>::from_elements(&v)));
            }
        }
    }
}
fn accept<T>(t: &mut Tally, what: &str, ok: bool, r: R<T>) {
    match (ok, r) {
        (true, Err(e)) => t.fail(format!("{} panicked: {}", what, e), what.to_string()),
        (false, Ok(_)) => t.fail(format!("{} was accepted", what), what.to_string()),
        _ => {}
    }
    t.eval(hash_str(what), true);
    t.count(if ok { "accepted_constructions" } else { "rejected_constructions" }, 1);
}

/// Everything readable of x equals the model.
fn agree<M: MatrixOperations>(x: &M, m: &Mat, name: &str) -> R<()> {
    if (x.n_rows(), x.n_cols()) != (m.r, m.c) {
        return Err(format!("{} reports {}x{} instead of {}x{}", name, x.n_rows(), x.n_cols(), m.r, m.c));
    }
    if x.elements().len() != m.d.len() || fev(x.elements()) != m.d {
        return Err(format!("{}.elements() is {} instead of {}", name, show(&fev(x.elements())), show(&m.d)));
    }
    for i in 0..m.r {
        for j in 0..m.c {
            if !same(&x.get_element(i, j), m.at(i, j)) {
                return Err(format!("{}.get_element({}, {}) of a {}x{} matrix is {} instead of {}", name, i, j, m.r, m.c, fe(&x.get_element(i, j)).hex(), m.at(i, j).hex()));
            }
        }
    }
    let rows: Vec<Vec<Fe>> = x.iter_rows().map(fev).collect();
    let want: Vec<Vec<Fe>> = m.d.chunks(m.c).map(|r| r.to_vec()).collect();
    if rows != want {
        return Err(format!("{}.iter_rows() gives {:?} instead of {:?}", name, rows.iter().map(|r| show(r)).collect::<Vec<_>>(), want.iter().map(|r| show(r)).collect::<Vec<_>>()));
    }
    Ok(())
}
/// The same contents but for an exchange, a shift from one element to another or a small change: equal in part, in sum, in product or as
/// a collection.
fn relative(m: &Mat, r: &mut Rng, pool: &Pool) -> Mat {
    let mut n = m.clone();
    let e = n.d.len();
    let (i, j) = (r.below(e), r.below(e));
    match r.below(10) {
        0 => n.d.swap(i, j),
        1 => n.d.reverse(),
        2 => n.d.rotate_left(i),
        3 | 4 => {
            // the same sum
            let x = pool.word(r);
            n.d[i] = n.d[i] + x;
            n.d[j] = n.d[j] - x;
        }
        5 => {
            // the same product
            let x = pool.word(r);
            if let Some(y) = x.inv() {
                n.d[i] = n.d[i] * x;
                n.d[j] = n.d[j] * y;
            }
        }
        6 => {
            let (k, l) = (r.below(m.r), r.below(m.r));
            for c in 0..m.c {
                n.d.swap(k * m.c + c, l * m.c + c);
            }
        }
        7 => n.d[i] = -n.d[i],
        8 => {
            for _ in 0..3 {
                relate(&mut n.d, r, pool);
            }
        }
        _ => {
            // one bit of the representation
            let mut l = n.d[i].0;
            l[r.below(4)] ^= 1 << r.below(60);
            if l[3] < crate::rf::P[3] {
                n.d[i] = Fe::from_mont(l);
            }
        }
    }
    n
}
/// A random history of updates and reads.
fn history<M: MatrixOperations + Clone + PartialEq>(mut x: M, m: &Mat, r: &mut Rng, pool: &Pool, name: &str) -> R<()> {
    let mut m = m.clone();
    agree(&x, &m, name)?;
    let first = (x.clone(), m.clone());
    for _ in 0..1 + r.below(6) {
        let (i, j) = (r.below(m.r), r.below(m.c));
        let v = pool.word(r);
        let before = (x.clone(), m.clone());
        x.set_element(i, j, fq(v));
        *m.at_mut(i, j) = v;
        agree(&x, &m, name).map_err(|e| format!("after set_element({}, {}, {}): {}", i, j, v.hex(), e))?;
        agree(&before.0, &before.1, name).map_err(|e| format!("a clone changed: {}", e))?;
        if (x == before.0) != (m == before.1) {
            return Err(format!("{}: equality of matrices with contents {} and {} is {}", name, show(&m.d), show(&before.1.d), x == before.0));
        }
    }
    agree(&first.0, &first.1, name).map_err(|e| format!("a clone changed: {}", e))?;
    // equality with relatives of the contents
    for _ in 0..3 {
        let n = relative(&m, r, pool);
        let y = M::new(&fqv(&n.d));
        let want = m.d == n.d;
        for (a, b, f) in [(&x, &y, false), (&y, &x, false), (&x, &y, true)] {
            if (if f { !(a != b) } else { a == b }) != want {
                return Err(format!("{}: equality of {}x{} matrices with contents {} and {} is {}", name, m.r, m.c, show(&m.d), show(&n.d), !want));
            }
        }
    }
    let y = M::new(&fqv(&m.d));
    if x != y || x.clone() != x {
        return Err(format!("{}: a matrix and another with the same contents {} are unequal", name, show(&m.d)));
    }
    // element-wise product
    let other = Mat::new(m.r, m.c, (0..m.d.len()).map(|_| pool.word(r)).collect());
    let y = M::new(&fqv(&other.d));
    match x.hadamard_product(&y) {
        Err(_) => return Err(format!("{}.hadamard_product reports an error", name)),
        Ok(z) => {
            let w = Mat::new(m.r, m.c, m.d.iter().zip(&other.d).map(|(a, b)| *a * *b).collect());
            agree(&z, &w, &format!("{}.hadamard_product", name))?;
        }
    }
    agree(&x, &m, name)?;
    agree(&y, &other, name)
}

/// Rectangular matrices.
pub trait Re: Sync {
    fn shape(&self) -> (usize, usize);
    fn transpose(&self, m: &Mat, how: u64) -> R<Vec<(&'static str, Mat)>>;
    fn scale(&self, m: &Mat, f: Fe, how: u64) -> R<Mat>;
    fn hadamard(&self, a: &Mat, b: &Mat, how: u64) -> R<Vec<(&'static str, Mat)>>;
    fn storage(&self, m: &Mat, r: &mut Rng, pool: &Pool, t: &mut Tally);
    fn reject(&self, r: &mut Rng, t: &mut Tally);
}
pub struct Rc<const N: usize, const M: usize, const E: usize>;
impl<const N: usize, const M: usize, const E: usize> Re for Rc<N, M, E> {
    fn shape(&self) -> (usize, usize) {
        (N, M)
    }
    fn transpose(&self, m: &Mat, how: u64) -> R<Vec<(&'static str, Mat)>> {
        guard(|| {
            let x: Matrix<N, M, E> = mk(m, how, Matrix::new_from_known);
            let a: ArcMatrix<N, M, E> = mk(m, how / 4, ArcMatrix::new_from_known);
            let o: OptimizedArcMatrix<N, M, E> = mk(m, how / 16, OptimizedArcMatrix::new_from_known);
            let out = vec![("Matrix", mat(&x.transpose())), ("ArcMatrix", mat(&a.transpose())), ("OptimizedArcMatrix", mat(&o.transpose()))];
            unchanged(&x, m)?;
            unchanged(&a, m)?;
            unchanged(&o, m)?;
            Ok(out)
        })?
    }
    fn scale(&self, m: &Mat, f: Fe, how: u64) -> R<Mat> {
        guard(|| mat(&(mk::<Matrix<N, M, E>, E>(m, how, Matrix::new_from_known) * fq(f))))
    }
    fn hadamard(&self, a: &Mat, b: &Mat, how: u64) -> R<Vec<(&'static str, Mat)>> {
        guard(|| {
            let x: Matrix<N, M, E> = mk(a, how, Matrix::new_from_known);
            let y: Matrix<N, M, E> = mk(b, how / 4, Matrix::new_from_known);
            // sometimes both operands are the same object
            let same = a == b && how & 16 == 0;
            let z = x.hadamard_product(if same { &x } else { &y }).map_err(|e| format!("error {:?}", e))?;
            let xa = wrap_arc(x.clone());
            let ya = wrap_arc(y.clone());
            let za = xa.hadamard_product(if same { &xa } else { &ya }).map_err(|e| format!("error {:?}", e))?;
            let xo = wrap_oarc(xa.clone());
            let yo = wrap_oarc(ya.clone());
            let zo = xo.hadamard_product(if same { &xo } else { &yo }).map_err(|e| format!("error {:?}", e))?;
            unchanged(&x, a)?;
            unchanged(&y, b)?;
            unchanged(&xa, a)?;
            unchanged(&yo, b)?;
            Ok(vec![("Matrix", mat(&z)), ("ArcMatrix", mat(&za)), ("OptimizedArcMatrix", mat(&zo))])
        })?
    }
    fn storage(&self, m: &Mat, r: &mut Rng, pool: &Pool, t: &mut Tally) {
        let how = r.u64();
        let mut res = Vec::new();
        res.push(guard(|| history(mk::<Matrix<N, M, E>, E>(m, how, Matrix::new_from_known), m, r, pool, "Matrix")).and_then(|x| x));
        res.push(guard(|| history(mk::<ArcMatrix<N, M, E>, E>(m, how / 4, ArcMatrix::new_from_known), m, r, pool, "ArcMatrix")).and_then(|x| x));
        res.push(
            guard(|| history(mk::<OptimizedArcMatrix<N, M, E>, E>(m, how / 16, OptimizedArcMatrix::new_from_known), m, r, pool, "OptimizedArcMatrix")).and_then(|x| x),
        );
        res.push(
            guard(|| {
                let a: ArcMatrix<N, M, E> = mk(m, how / 64, ArcMatrix::new_from_known);
                if fev(&a.inner_elements()) != m.d {
                    return Err(format!("inner_elements is {}", show(&fev(&a.inner_elements()))));
                }
                let x: Matrix<N, M, E> = mk(m, how / 256, Matrix::new_from_known);
                for i in 0..N {
                    let v = mat(&x.row_vector(i));
                    if (v.r, v.c) != (1, M) || v.d[..] != m.d[i * M..i * M + M] {
                        return Err(format!("row_vector({}) of a {}x{} matrix is {}", i, N, M, show(&v.d)));
                    }
                }
                if x != a.0 || wrap_oarc(a.clone()).0 != a {
                    return Err("wrappers of equal data differ".into());
                }
                Ok(())
            })
            .and_then(|x| x),
        );
        for e in res {
            if let Err(e) = e {
                t.fail(e, format!("{}x{} matrix {}", N, M, show(&m.d)));
            }
        }
        t.count("row_vectors", N as u64);
    }
    fn reject(&self, r: &mut Rng, t: &mut Tally) {
        let mut lens: Vec<usize> = (0..E + 3).collect();
        if E > 40 {
            lens = vec![0, 1, N, M, E / 2, E - M, E - 1, E, E + 1, E + M, 2 * E];
        }
        for n in lens {
            let v: Vec<Fq> = (0..n).map(|_| fq(r.fe())).collect();
            let ok = n == E;
            accept(t, &format!("Matrix<{},{},{}>::new with {} elements", N, M, E, n), ok, guard(|| Matrix::<N, M, E>::new(&v)));
            accept(t, &format!("ArcMatrix<{},{},{}>::new with {} elements", N, M, E, n), ok, guard(|| ArcMatrix::<N, M, E>::new(&v)));
            accept(t, &format!("OptimizedArcMatrix<{},{},{}>::new with {} elements", N, M, E, n), ok, guard(|| OptimizedArcMatrix::<N, M, E>::new(&v)));
        }
    }
}

pub const SQUARES: [&dyn Sq; 8] = [
    &S::<1, 1, 0, 0>,
    &S::<2, 4, 1, 1>,
    &S::<3, 9, 2, 4>,
    &S::<4, 16, 3, 9>,
    &S::<5, 25, 4, 16>,
    &S::<6, 36, 5, 25>,
    &S::<7, 49, 6, 36>,
    &S::<8, 64, 7, 49>,
];
macro_rules! rects {
    ($(($a:expr, $b:expr)),* $(,)?) => { pub const RECTS: &[&dyn Re] = &[$(&Rc::<$a, $b, {$a * $b}>),*]; };
}
#[cfg(not(miri))]
rects![
    (1, 1), (1, 2), (2, 1), (1, 7), (7, 1), (2, 3), (3, 2), (3, 3), (2, 5), (5, 2), (4, 6), (6, 4), (3, 8), (8, 3), (8, 8), (9, 9), (2, 9), (10, 3), (1, 16), (16, 1),
    (12, 12), (39, 2), (39, 8), (39, 4), (5, 39), (64, 3), (100, 2)
];
#[cfg(miri)]
rects![(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (2, 2)];

pub struct Mul3 {
    pub a: usize,
    pub b: usize,
    pub c: usize,
    pub run: fn(&Mat, &Mat, u64) -> R<Mat>,
}
fn mul3<const A: usize, const B: usize, const C: usize, const AB: usize, const BC: usize, const AC: usize>(x: &Mat, y: &Mat, how: u64) -> R<Mat> {
    guard(|| {
        let a: Matrix<A, B, AB> = mk(x, how, Matrix::new_from_known);
        let b: Matrix<B, C, BC> = mk(y, how / 4, Matrix::new_from_known);
        let z: Matrix<A, C, AC> = mat_mul(&a, &b);
        unchanged(&a, x)?;
        unchanged(&b, y)?;
        Ok(mat(&z))
    })?
}
macro_rules! muls {
    ($(($a:expr, $b:expr, $c:expr)),* $(,)?) => {
        pub const MULS: &[Mul3] = &[$(Mul3 { a: $a, b: $b, c: $c, run: mul3::<$a, $b, $c, {$a * $b}, {$b * $c}, {$a * $c}> }),*];
    };
}
#[cfg(not(miri))]
muls![
    (1, 1, 1), (1, 1, 4), (4, 1, 1), (1, 4, 1), (3, 1, 3), (1, 3, 3), (3, 3, 1), (2, 2, 2), (2, 3, 2), (3, 2, 3), (2, 3, 4), (4, 3, 2), (3, 4, 2), (5, 2, 7), (7, 5, 2), (2, 7, 5),
    (1, 8, 8), (8, 8, 1), (8, 1, 8), (6, 6, 6), (9, 9, 9), (3, 10, 3), (10, 3, 10), (1, 7, 7), (7, 7, 1), (12, 5, 3), (4, 16, 4), (16, 2, 16), (39, 8, 8), (1, 39, 2), (8, 39, 1)
];
#[cfg(miri)]
muls![(1, 1, 1), (1, 3, 1), (3, 1, 3), (2, 3, 2), (1, 2, 2)];

fn pair(r: &mut Rng, pool: &Pool, a: (usize, usize), b: (usize, usize)) -> (Mat, Mat) {
    let x = matrix(r, pool, a.0, a.1).0;
    let y = match r.below(8) {
        0 if a == b => x.clone(),
        1 if a == (b.1, b.0) => x.t(),
        2 if a.0 == a.1 && a == b => x.inv().unwrap_or_else(|| matrix(r, pool, b.0, b.1).0),
        _ => matrix(r, pool, b.0, b.1).0,
    };
    (x, y)
}

pub fn c13(ctx: &Ctx) -> Tally {
    parallel(ctx, |c, r, t| {
        let k = (c % 8) as usize;
        let q = SQUARES[k];
        let n = q.n();
        let reps = if cfg!(miri) { 2 } else { [400, 400, 300, 200, 100, 40, 12, 3][k] };
        if cfg!(miri) && n > 4 {
            return;
        }
        for i in 0..reps {
            let (m, kind) = matrix(r, &ctx.pool, n, n);
            let how = r.u64();
            let want = m.inv();
            let case = || format!("{}x{} ({}) {}", n, n, MKINDS[kind], show(&m.d));
            match q.inverse(&m, how) {
                Err(e) => t.fail(format!("inverse of a {} {}x{} matrix: {}", if want.is_some() { "regular" } else { "singular" }, n, n, e), case()),
                Ok(Ok(x)) => match &want {
                    None => t.fail(format!("a singular {}x{} matrix got the inverse {}", n, n, show(&x.d)), case()),
                    Some(w) => {
                        if x != *w {
                            t.fail(format!("inverse of a {}x{} matrix is {} instead of {}", n, n, show(&x.d), show(&w.d)), case());
                        } else if m.mul(&x) != Mat::id(n) || x.mul(&m) != Mat::id(n) {
                            panic!("harness: reference inverse wrong");
                        }
                    }
                },
                Ok(Err(e)) => {
                    if want.is_some() {
                        t.fail(format!("a regular {}x{} matrix has no inverse according to the code ({})", n, n, e), case());
                    } else if !e.contains("NoMatrixInverse") {
                        t.fail(format!("inverting a singular matrix reports {} instead of NoMatrixInverse", e), case());
                    }
                }
            }
            t.count(if want.is_some() { "regular" } else { "singular" }, 1);
            t.count(&format!("size_{}", n), 1);
            t.eval(key_of(n as u64, &m.d), true);
            if n > 1 && (i % 3 == 0 || n >= 7) {
                if let Some(w) = &want {
                    match q.mds_inverse(&m, how) {
                        Err(e) => t.fail(format!("MdsMatrix::inverse: {}", e), case()),
                        Ok(x) if x != *w => t.fail(format!("MdsMatrix::inverse of a {}x{} matrix is {} instead of {}", n, n, show(&x.d), show(&w.d)), case()),
                        _ => {}
                    }
                    t.count("mds_inverses", 1);
                }
            }
            if !t.viol.is_empty() {
                return;
            }
            if i == 1 {
                t.sample(|| format!("{} -> {}", case(), want.as_ref().map(|w| show(&w.d)).unwrap_or("singular".into())));
            }
        }
    })
}

pub fn c14(ctx: &Ctx) -> Tally {
    parallel(ctx, |c, r, t| {
        let k = (c % 8) as usize;
        let q = SQUARES[k];
        let n = q.n();
        let reps = if cfg!(miri) { 2 } else { [300, 300, 200, 150, 80, 30, 10, 2][k] };
        if cfg!(miri) && n > 4 {
            return;
        }
        for i in 0..reps {
            let (m, kind) = matrix(r, &ctx.pool, n, n);
            let how = r.u64();
            let case = || format!("{}x{} ({}) {}", n, n, MKINDS[kind], show(&m.d));
            let det = m.det();
            match q.det(&m, how) {
                Err(e) => t.fail(format!("determinant: {}", e), case()),
                Ok(d) if d != det => t.fail(format!("determinant of a {}x{} matrix is {} instead of {}", n, n, d.hex(), det.hex()), case()),
                _ => {}
            }
            match q.minors(&m, how) {
                Err(e) => t.fail(format!("minors of a {}x{} matrix: {}", n, n, e), case()),
                Ok(x) => {
                    for a in 0..n {
                        for b in 0..n {
                            let w = m.minor(a, b).det();
                            if (x.r, x.c) != (n, n) || x.at(a, b) != w {
                                t.fail(format!("minor ({}, {}) of a {}x{} matrix is {} instead of {}", a, b, n, n, x.at(a, b).hex(), w.hex()), case());
                            }
                        }
                    }
                }
            }
            match q.cofactors(&m, how) {
                Err(e) => t.fail(format!("cofactors: {}", e), case()),
                Ok(x) => {
                    for a in 0..n {
                        for b in 0..n {
                            if x.at(a, b) != if (a + b) % 2 == 0 { Fe::ONE } else { -Fe::ONE } {
                                t.fail(format!("cofactor sign ({}, {}) of a {}x{} matrix is {}", a, b, n, n, x.at(a, b).hex()), case());
                            }
                        }
                    }
                }
            }
            // derived laws on related matrices, evaluated on the code itself
            if i % 4 == 0 && n > 1 && n < 8 {
                let mut sw = m.clone();
                let (a, b) = (r.below(n), r.below(n));
                for j in 0..n {
                    sw.d.swap(a * n + j, b * n + j);
                }
                let o = matrix(r, &ctx.pool, n, n).0;
                for (x, w, what) in [
                    (sw, if a == b { det } else { -det }, "row swap"),
                    (m.t(), det, "transpose"),
                    (m.mul(&o), det * o.det(), "product"),
                ] {
                    match q.det(&x, how) {
                        Ok(d) if d == w => {}
                        Ok(d) => t.fail(format!("determinant after {} is {} instead of {}", what, d.hex(), w.hex()), case()),
                        Err(e) => t.fail(format!("determinant after {}: {}", what, e), case()),
                    }
                    t.count("laws", 1);
                    t.eval(key_of(n as u64, &x.d), true);
                }
            }
            t.count(&format!("size_{}", n), 1);
            t.count(if det.is_zero() { "singular" } else { "regular" }, 1);
            t.eval(key_of(n as u64, &m.d), true);
            if !t.viol.is_empty() {
                return;
            }
            if i == 1 {
                t.sample(|| format!("{} det {}", case(), det.hex()));
            }
        }
    })
}

pub fn c15(ctx: &Ctx) -> Tally {
    parallel(ctx, |c, r, t| {
        let reps = if cfg!(miri) { 1 } else { 4 };
        for _ in 0..reps {
            for x in MULS {
                let (a, b) = pair(r, &ctx.pool, (x.a, x.b), (x.b, x.c));
                let w = a.mul(&b);
                let case = || format!("{}x{} times {}x{}: {} * {}", x.a, x.b, x.b, x.c, show(&a.d), show(&b.d));
                match (x.run)(&a, &b, r.u64()) {
                    Err(e) => t.fail(format!("mat_mul {}x{}x{}: {}", x.a, x.b, x.c, e), case()),
                    Ok(g) if g != w => t.fail(format!("mat_mul {}x{}x{} gives {} instead of {}", x.a, x.b, x.c, show(&g.d), show(&w.d)), case()),
                    _ => {}
                }
                t.eval(key_of((x.a * 10000 + x.b * 100 + x.c) as u64, &[&a.d[..], &b.d[..]].concat()), true);
                t.count("rectangular_products", 1);
                if x.a == 2 && x.b == 3 && x.c == 4 {
                    t.sample(case);
                }
            }
            for q in SQUARES {
                let n = q.n();
                let (a, b) = pair(r, &ctx.pool, (n, n), (n, n));
                let case = || format!("{}x{}: {} * {}", n, n, show(&a.d), show(&b.d));
                let how = r.u64();
                let f = ctx.pool.word(r);
                let sc = Mat::new(n, n, a.d.iter().map(|x| *x * f).collect());
                for (what, got, want) in [
                    ("square_mat_mul", q.mul(&a, &b, how), a.mul(&b)),
                    ("square_mat_mul with itself", q.mul(&a, &a, how), a.mul(&a)),
                    ("transpose", q.transpose(&a, how), a.t()),
                    ("scalar product", q.scale(&a, f, how), sc),
                    ("identity", q.identity(), Mat::id(n)),
                ] {
                    match got {
                        Err(e) => t.fail(format!("{} of size {}: {}", what, n, e), case()),
                        Ok(g) if g != want => t.fail(format!("{} of size {} gives {} instead of {}", what, n, show(&g.d), show(&want.d)), case()),
                        _ => {}
                    }
                    t.eval(key_of(hash_str(what), &[&a.d[..], &b.d[..]].concat()), true);
                }
                t.count("square_operations", 5);
            }
            for x in RECTS {
                let (n, m) = x.shape();
                let (a, mut b) = pair(r, &ctx.pool, (n, m), (n, m));
                if r.chance(1, 8) {
                    b = a.clone();
                }
                let f = ctx.pool.word(r);
                let how = r.u64();
                let case = || format!("{}x{}: {}, {}, {}", n, m, show(&a.d), show(&b.d), f.hex());
                match x.transpose(&a, how) {
                    Err(e) => t.fail(format!("transpose {}x{}: {}", n, m, e), case()),
                    Ok(v) => {
                        for (ty, g) in v {
                            if g != a.t() {
                                t.fail(format!("transpose of a {}x{} {} gives {}", n, m, ty, show(&g.d)), case());
                            }
                        }
                    }
                }
                let h = Mat::new(n, m, a.d.iter().zip(&b.d).map(|(x, y)| *x * *y).collect());
                match x.hadamard(&a, &b, how) {
                    Err(e) => t.fail(format!("hadamard_product {}x{}: {}", n, m, e), case()),
                    Ok(v) => {
                        for (ty, g) in v {
                            if g != h {
                                t.fail(format!("hadamard_product of {}x{} {} gives {} instead of {}", n, m, ty, show(&g.d), show(&h.d)), case());
                            }
                        }
                    }
                }
                let s = Mat::new(n, m, a.d.iter().map(|x| *x * f).collect());
                match x.scale(&a, f, how) {
                    Err(e) => t.fail(format!("scalar product {}x{}: {}", n, m, e), case()),
                    Ok(g) if g != s => t.fail(format!("scalar product {}x{} gives {}", n, m, show(&g.d)), case()),
                    _ => {}
                }
                t.eval(key_of((n * 1000 + m) as u64, &[&a.d[..], &b.d[..]].concat()), true);
                t.count("rectangular_operations", 7);
            }
            if !t.viol.is_empty() {
                return;
            }
        }
        if c % 4 == 0 {
            bad_products(t, r);
        }
    })
}
/// Products whose shapes do not fit must not produce a result.
fn bad_products(t: &mut Tally, r: &mut Rng) {
    let a = Matrix::<2, 3, 6>::new(&(0..6).map(|_| fq(r.fe())).collect::<Vec<_>>());
    let b = Matrix::<2, 4, 8>::new(&(0..8).map(|_| fq(r.fe())).collect::<Vec<_>>());
    let d = Matrix::<3, 2, 6>::new(&(0..6).map(|_| fq(r.fe())).collect::<Vec<_>>());
    let s2 = SquareMatrix::<2, 4>::new(&(0..4).map(|_| fq(r.fe())).collect::<Vec<_>>());
    let s3 = SquareMatrix::<3, 9>::new(&(0..9).map(|_| fq(r.fe())).collect::<Vec<_>>());
    accept(t, "mat_mul 2x3 times 2x4", false, guard(|| -> Matrix<2, 4, 8> { mat_mul(&a, &b) }));
    accept(t, "mat_mul 2x3 times 3x2 into 5 elements", false, guard(|| -> Matrix<2, 2, 5> { mat_mul(&a, &d) }));
    accept(t, "mat_mul 2x3 times 3x2 into 3 elements", false, guard(|| -> Matrix<2, 2, 3> { mat_mul(&a, &d) }));
    accept(t, "square_mat_mul 2x2 times 3x3", false, guard(|| -> SquareMatrix<2, 4> { square_mat_mul(&s2, &s3) }));
    accept(t, "square_mat_mul 3x3 times 2x2", false, guard(|| -> SquareMatrix<3, 9> { square_mat_mul(&s3, &s2) }));
    accept(t, "mat_mul 2x3 times 3x2 into 4 elements", true, guard(|| -> Matrix<2, 2, 4> { mat_mul(&a, &d) }));
}

pub fn c16(ctx: &Ctx) -> Tally {
    parallel(ctx, |c, r, t| {
        for q in SQUARES {
            let n = q.n();
            let (m, _) = matrix(r, &ctx.pool, n, n);
            q.storage(&m, r, &ctx.pool, t);
            t.eval(key_of(n as u64, &m.d), true);
            if n > 1 {
                let want = [
                    Mat::new(1, n - 1, m.d[1..n].to_vec()),
                    Mat::new(n - 1, 1, (1..n).map(|i| m.at(i, 0)).collect()),
                    m.minor(0, 0),
                    m.t(),
                ];
                match q.mds_parts(&m, r.u64()) {
                    Err(e) => t.fail(format!("parts of an MDS matrix: {}", e), show(&m.d)),
                    Ok(g) => {
                        for ((g, w), name) in g.iter().zip(&want).zip(["v", "w", "hat", "transpose"]) {
                            if g != w {
                                t.fail(format!("MdsMatrix::{} of width {} is {}x{} {} instead of {}", name, n, g.r, g.c, show(&g.d), show(&w.d)), show(&m.d));
                            }
                        }
                    }
                }
                t.count("mds_parts", 4);
            }
            if c % 16 == 0 {
                q.reject(r, t);
            }
        }
        for x in RECTS {
            let (n, m) = x.shape();
            let (a, _) = matrix(r, &ctx.pool, n, m);
            x.storage(&a, r, &ctx.pool, t);
            t.eval(key_of((1000 * n + m) as u64, &a.d), true);
            t.count("rectangular_histories", 3);
            if n == 3 && m == 2 {
                t.sample(|| format!("3x2 history starting from {}", show(&a.d)));
            }
            if c % 16 == 0 {
                x.reject(r, t);
            }
        }
        // 2x2 constructor
        let v: Vec<Fe> = (0..4).map(|_| ctx.pool.word(r)).collect();
        match guard(|| mat(&SquareMatrix::<2, 4>::new_2x2(fq(v[0]), fq(v[1]), fq(v[2]), fq(v[3])))) {
            Ok(g) if g == Mat::new(2, 2, v.clone()) => {}
            Ok(g) => t.fail(format!("new_2x2 gives {} for {}", show(&g.d), show(&v)), show(&v)),
            Err(e) => t.fail(format!("new_2x2 panicked: {}", e), show(&v)),
        }
        if c % 16 == 0 {
            bad_dims(t, r);
        }
    })
}
macro_rules! bad {
    ($t:ident, $r:ident, $ty:ident <$($p:literal),*>, $n:literal) => {{
        let e: [Fq; $n] = core::array::from_fn(|_| fq($r.fe()));
        accept($t, concat!(stringify!($ty), "<", $(stringify!($p), ",",)* "> new_from_known"), false, guard(|| $ty::<$($p),*>::new_from_known(e)));
        accept($t, concat!(stringify!($ty), "<", $(stringify!($p), ",",)* "> new"), false, guard(|| <$ty::<$($p),*> as MatrixOperations>::new(&e)));
    }};
}
/// Types whose dimensions contradict each other can be named but not constructed.
fn bad_dims(t: &mut Tally, r: &mut Rng) {
    bad!(t, r, Matrix<2, 3, 5>, 5);
    bad!(t, r, Matrix<2, 3, 7>, 7);
    bad!(t, r, Matrix<2, 3, 0>, 0);
    bad!(t, r, Matrix<1, 4, 3>, 3);
    bad!(t, r, Matrix<4, 1, 5>, 5);
    bad!(t, r, Matrix<3, 3, 6>, 6);
    bad!(t, r, Matrix<2, 2, 9>, 9);
    bad!(t, r, Matrix<4, 4, 15>, 15);
    bad!(t, r, Matrix<0, 3, 3>, 3);
    bad!(t, r, SquareMatrix<2, 3>, 3);
    bad!(t, r, SquareMatrix<2, 5>, 5);
    bad!(t, r, SquareMatrix<3, 6>, 6);
    bad!(t, r, SquareMatrix<3, 4>, 4);
    bad!(t, r, ArcMatrix<3, 2, 5>, 5);
    bad!(t, r, ArcMatrix<3, 2, 8>, 8);
    bad!(t, r, OptimizedArcMatrix<3, 2, 5>, 5);
    bad!(t, r, OptimizedArcMatrix<2, 3, 9>, 9);
    bad!(t, r, MdsMatrix<3, 2, 8, 4>, 8);
    bad!(t, r, MdsMatrix<2, 1, 5, 1>, 5);
    // width and submatrix width inconsistent: refused by the checking constructor
    let e9: Vec<Fq> = (0..9).map(|_| fq(r.fe())).collect();
    accept(t, "MdsMatrix<3,3,9,4>::new", false, guard(|| MdsMatrix::<3, 3, 9, 4>::new(&e9)));
    accept(t, "MdsMatrix<3,1,9,4>::new", false, guard(|| MdsMatrix::<3, 1, 9, 4>::new(&e9)));
    accept(t, "MdsMatrix<3,2,9,3>::new", false, guard(|| MdsMatrix::<3, 2, 9, 3>::new(&e9)));
    accept(t, "MdsMatrix<3,2,9,9>::new", false, guard(|| MdsMatrix::<3, 2, 9, 9>::new(&e9)));
    accept(t, "MdsMatrix<3,2,9,4>::new", true, guard(|| MdsMatrix::<3, 2, 9, 4>::new(&e9)));
}
