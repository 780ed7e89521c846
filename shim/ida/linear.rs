//! The linear-solver interface the integrator is written against, bridged to the `linear` crate
//! of the workspace (which moved from ndarray to nalgebra with compile-time dimensions).
use nalgebra::{Const, SMatrix, SVector};
use ndarray::prelude::*;
use rs_linear::LSolver as _;
use std::marker::PhantomData;

pub use rs_linear::Error;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LSolverType {
    Direct,
    Iterative,
    MatrixIterative,
}

pub trait LSolver<Scalar> {
    fn new(size: usize) -> Self;
    fn get_type(&self) -> LSolverType;
    fn set_scaling_vectors<S1, S2>(&mut self, _s1: ArrayBase<S1, Ix1>, _s2: ArrayBase<S2, Ix1>)
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::Data<Elem = Scalar>,
    {
    }
    fn setup<S1>(&mut self, mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = Scalar>;
    fn solve<S1, S2, S3>(
        &self,
        mat_a: ArrayBase<S1, Ix2>,
        x: ArrayBase<S2, Ix1>,
        b: ArrayBase<S3, Ix1>,
        tol: Scalar,
    ) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::DataMut<Elem = Scalar>,
        S3: ndarray::Data<Elem = Scalar>;
    fn num_iters(&self) -> usize {
        0
    }
}

macro_rules! sizes {
    ($($v:ident $n:literal),*) => {
        #[derive(Clone, Debug)]
        enum Inner { $($v(rs_linear::Dense<Const<$n>>)),* }

        #[derive(Clone, Debug)]
        pub struct Dense<Scalar> { inner: Inner, ph: PhantomData<Scalar> }

        impl LSolver<f64> for Dense<f64> {
            fn new(size: usize) -> Self {
                let inner = match size {
                    $($n => Inner::$v(<rs_linear::Dense<Const<$n>> as rs_linear::LSolver<f64, Const<$n>>>::new()),)*
                    _ => panic!("size {} not bridged", size),
                };
                Dense { inner, ph: PhantomData }
            }
            fn get_type(&self) -> LSolverType {
                let t = match &self.inner {
                    $(Inner::$v(d) => <rs_linear::Dense<Const<$n>> as rs_linear::LSolver<f64, Const<$n>>>::get_type(d),)*
                };
                match t {
                    rs_linear::LSolverType::Direct => LSolverType::Direct,
                    rs_linear::LSolverType::Iterative => LSolverType::Iterative,
                    rs_linear::LSolverType::MatrixIterative => LSolverType::MatrixIterative,
                }
            }
            fn setup<S1>(&mut self, mut mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
            where
                S1: ndarray::DataMut<Elem = f64>,
            {
                match &mut self.inner {
                    $(Inner::$v(d) => {
                        let mut a = SMatrix::<f64, $n, $n>::from_fn(|i, j| mat_a[[i, j]]);
                        let r = d.setup(&mut a);
                        for i in 0..$n { for j in 0..$n { mat_a[[i, j]] = a[(i, j)]; } }
                        r.map_err(failure::Error::from)
                    })*
                }
            }
            fn solve<S1, S2, S3>(
                &self,
                mat_a: ArrayBase<S1, Ix2>,
                mut x: ArrayBase<S2, Ix1>,
                b: ArrayBase<S3, Ix1>,
                tol: f64,
            ) -> Result<(), failure::Error>
            where
                S1: ndarray::Data<Elem = f64>,
                S2: ndarray::DataMut<Elem = f64>,
                S3: ndarray::Data<Elem = f64>,
            {
                match &self.inner {
                    $(Inner::$v(d) => {
                        let a = SMatrix::<f64, $n, $n>::from_fn(|i, j| mat_a[[i, j]]);
                        let mut xx = SVector::<f64, $n>::from_fn(|i, _| x[i]);
                        let bb = SVector::<f64, $n>::from_fn(|i, _| b[i]);
                        let r = d.solve(&a, &mut xx, &bb, tol);
                        for i in 0..$n { x[i] = xx[i]; }
                        r.map_err(failure::Error::from)
                    })*
                }
            }
        }
    };
}
sizes!(D1 1, D2 2, D3 3, D4 4, D5 5, D6 6, D7 7, D8 8, D9 9, D10 10);
