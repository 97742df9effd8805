#![allow(non_snake_case)]
pub mod v1 {
    pub use real::v1::{Alpha, RoundNumbers};
    use ark_ff::PrimeField;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Matrix<F: PrimeField> {
        pub elements: Vec<F>,
        n_rows: usize,
        n_cols: usize,
    }
    pub trait MatrixOperations<F> {
        fn new(n_rows: usize, n_cols: usize, elements: Vec<F>) -> Self;
        fn elements(&self) -> &Vec<F>;
        fn get_element(&self, i: usize, j: usize) -> F;
        fn set_element(&mut self, i: usize, j: usize, val: F);
        fn n_rows(&self) -> usize;
        fn n_cols(&self) -> usize;
        fn rows(&self) -> Vec<&[F]>;
        fn iter_rows(&self) -> core::slice::Chunks<'_, F>;
        fn hadamard_product(&self, rhs: &Self) -> anyhow::Result<Self>
        where
            Self: Sized;
    }
    impl<F: PrimeField> Matrix<F> {
        pub fn new(n_rows: usize, n_cols: usize, elements: Vec<F>) -> Self {
            assert_eq!(elements.len(), n_rows * n_cols, "wrong number of elements");
            Matrix { elements, n_rows, n_cols }
        }
        pub fn row_vector(&self, i: usize) -> Matrix<F> {
            Matrix::new(1, self.n_cols, self.elements[i * self.n_cols..(i + 1) * self.n_cols].to_vec())
        }
        pub fn transpose(&self) -> Matrix<F> {
            let mut e = Vec::new();
            for j in 0..self.n_cols {
                for i in 0..self.n_rows {
                    e.push(self.elements[i * self.n_cols + j]);
                }
            }
            Matrix::new(self.n_cols, self.n_rows, e)
        }
    }
    macro_rules! ops {
        ($t:ident, $s:ident => $inner:expr, $wrap:expr) => {
            impl<F: PrimeField> MatrixOperations<F> for $t<F> {
                fn new(n_rows: usize, n_cols: usize, elements: Vec<F>) -> Self {
                    ($wrap)(Matrix::new(n_rows, n_cols, elements))
                }
                fn elements(&self) -> &Vec<F> {
                    let $s = self;
                    &$inner.elements
                }
                fn get_element(&self, i: usize, j: usize) -> F {
                    let $s = self;
                    assert!(i < $inner.n_rows && j < $inner.n_cols);
                    $inner.elements[i * $inner.n_cols + j]
                }
                fn set_element(&mut self, i: usize, j: usize, val: F) {
                    let $s = self;
                    assert!(i < $inner.n_rows && j < $inner.n_cols);
                    let k = i * $inner.n_cols + j;
                    $inner.elements[k] = val
                }
                fn n_rows(&self) -> usize {
                    let $s = self;
                    $inner.n_rows
                }
                fn n_cols(&self) -> usize {
                    let $s = self;
                    $inner.n_cols
                }
                fn rows(&self) -> Vec<&[F]> {
                    let $s = self;
                    $inner.elements.chunks($inner.n_cols).collect()
                }
                fn iter_rows(&self) -> core::slice::Chunks<'_, F> {
                    let $s = self;
                    $inner.elements.chunks($inner.n_cols)
                }
                fn hadamard_product(&self, rhs: &Self) -> anyhow::Result<Self> {
                    let $s = self;
                    let a = &$inner;
                    let $s = rhs;
                    let b = &$inner;
                    if a.n_rows != b.n_rows || a.n_cols != b.n_cols {
                        anyhow::bail!("matrix dimensions do not match");
                    }
                    let m = Matrix::new(a.n_rows, a.n_cols, a.elements.iter().zip(&b.elements).map(|(x, y)| *x * *y).collect());
                    Ok(($wrap)(m))
                }
            }
        };
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SquareMatrix<F: PrimeField>(pub Matrix<F>);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct MdsMatrix<F: PrimeField>(pub SquareMatrix<F>);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct ArcMatrix<F: PrimeField>(pub Matrix<F>);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct OptimizedArcMatrix<F: PrimeField>(pub ArcMatrix<F>);
    ops!(Matrix, s => s, |m| m);
    ops!(SquareMatrix, s => s.0, SquareMatrix);
    ops!(MdsMatrix, s => s.0 .0, |m| MdsMatrix(SquareMatrix(m)));
    ops!(ArcMatrix, s => s.0, ArcMatrix);
    ops!(OptimizedArcMatrix, s => s.0 .0, |m| OptimizedArcMatrix(ArcMatrix(m)));

    impl<F: PrimeField> ArcMatrix<F> {
        pub fn transpose(&self) -> Self {
            ArcMatrix(self.0.transpose())
        }
    }
    impl<F: PrimeField> OptimizedArcMatrix<F> {
        pub fn transpose(&self) -> Self {
            OptimizedArcMatrix(self.0.transpose())
        }
    }
    impl<F: PrimeField> From<ArcMatrix<F>> for Vec<Vec<F>> {
        fn from(a: ArcMatrix<F>) -> Self {
            a.0.elements.chunks(a.0.n_cols).map(|r| r.to_vec()).collect()
        }
    }
    macro_rules! scaled {
        ($t:ident, $s:ident => $inner:expr) => {
            impl<F: PrimeField> core::ops::Mul<F> for $t<F> {
                type Output = $t<F>;
                fn mul(mut self, by: F) -> $t<F> {
                    {
                        let $s = &mut self;
                        $inner.elements.iter_mut().for_each(|x| *x *= by);
                    }
                    self
                }
            }
        };
    }
    scaled!(Matrix, s => s);
    scaled!(SquareMatrix, s => s.0);
    pub fn dot_product<F: PrimeField>(a: Vec<F>, b: Vec<F>) -> F {
        assert_eq!(a.len(), b.len(), "vecs not same len");
        a.iter().zip(&b).map(|(x, y)| *x * *y).sum()
    }
    pub fn square_mat_mul<F: PrimeField>(a: &SquareMatrix<F>, b: &SquareMatrix<F>) -> anyhow::Result<SquareMatrix<F>> {
        Ok(SquareMatrix(mat_mul(&a.0, &b.0)?))
    }
    pub fn mat_mul<F: PrimeField>(a: &Matrix<F>, b: &Matrix<F>) -> anyhow::Result<Matrix<F>> {
        if a.n_cols != b.n_rows {
            anyhow::bail!("matrix dimensions do not match");
        }
        let mut e = Vec::new();
        for i in 0..a.n_rows {
            for j in 0..b.n_cols {
                e.push((0..a.n_cols).map(|k| a.elements[i * a.n_cols + k] * b.elements[k * b.n_cols + j]).sum());
            }
        }
        Ok(Matrix::new(a.n_rows, b.n_cols, e))
    }
    pub trait SquareMatrixOperations<F: PrimeField>: Sized {
        fn inverse(&self) -> anyhow::Result<Self>;
        fn identity(n: usize) -> Self;
    }
    impl<F: PrimeField> SquareMatrix<F> {
        pub fn from_vec(e: Vec<F>) -> Self {
            let n = (0..).find(|n| n * n >= e.len()).unwrap();
            SquareMatrix(Matrix::new(n, n, e))
        }
        pub fn transpose(&self) -> Self {
            SquareMatrix(self.0.transpose())
        }
    }
    impl<F: PrimeField> SquareMatrixOperations<F> for SquareMatrix<F> {
        fn identity(n: usize) -> Self {
            SquareMatrix(Matrix::new(n, n, (0..n * n).map(|k| if k / n == k % n { F::one() } else { F::zero() }).collect()))
        }
        fn inverse(&self) -> anyhow::Result<Self> {
            let n = self.0.n_rows;
            let mut a = self.0.elements.clone();
            let mut b = Self::identity(n).0.elements;
            for c in 0..n {
                let p = match (c..n).find(|r| !a[r * n + c].is_zero()) {
                    Some(p) => p,
                    None => anyhow::bail!("no inverse"),
                };
                for k in 0..n {
                    a.swap(c * n + k, p * n + k);
                    b.swap(c * n + k, p * n + k);
                }
                let i = a[c * n + c].inverse().unwrap();
                for k in 0..n {
                    a[c * n + k] *= i;
                    b[c * n + k] *= i;
                }
                for r in 0..n {
                    if r != c {
                        let f = a[r * n + c];
                        for k in 0..n {
                            let (x, y) = (a[c * n + k], b[c * n + k]);
                            a[r * n + k] -= f * x;
                            b[r * n + k] -= f * y;
                        }
                    }
                }
            }
            Ok(SquareMatrix(Matrix::new(n, n, b)))
        }
    }
    impl<F: PrimeField> SquareMatrix<F> {
        pub fn row_vector(&self, i: usize) -> Matrix<F> {
            self.0.row_vector(i)
        }
        pub fn new_2x2(a: F, b: F, c: F, d: F) -> Self {
            Self::from_vec(vec![a, b, c, d])
        }
    }
    impl<F: PrimeField> MdsMatrix<F> {
        pub fn from_elements(e: Vec<F>) -> Self {
            MdsMatrix(SquareMatrix::from_vec(e))
        }
        pub fn v(&self) -> Matrix<F> {
            let n = self.0 .0.n_rows;
            Matrix::new(1, n - 1, self.0 .0.elements[1..n].to_vec())
        }
        pub fn w(&self) -> Matrix<F> {
            let n = self.0 .0.n_rows;
            Matrix::new(n - 1, 1, (1..n).map(|i| self.0 .0.elements[i * n]).collect())
        }
        pub fn hat(&self) -> SquareMatrix<F> {
            let n = self.0 .0.n_rows;
            SquareMatrix(Matrix::new(n - 1, n - 1, (0..(n - 1) * (n - 1)).map(|k| self.0 .0.elements[(k / (n - 1) + 1) * n + k % (n - 1) + 1]).collect()))
        }
        pub fn transpose(&self) -> Self {
            MdsMatrix(self.0.transpose())
        }
        pub fn inverse(&self) -> SquareMatrix<F> {
            self.0.inverse().expect("all well-formed MDS matrices should have inverses")
        }
    }
}
pub mod v2 {
    pub use super::v1::*;
}
