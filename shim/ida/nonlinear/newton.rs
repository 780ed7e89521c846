use super::{NLProblem, NLSolver};
use crate::traits::ModelSpec;
use nalgebra::{Const, Matrix, SVector, Storage, StorageMut, U1};
use ndarray::prelude::*;
use rs_nonlinear::{Error, NLProblem as RsProblem, NLSolver as RsSolver};
use std::marker::PhantomData;

/// What the integrator's convergence test can ask about the solver that calls it.
struct View<P> {
    iters: usize,
    cur: usize,
    fails: usize,
    ph: PhantomData<P>,
}
impl<P: ModelSpec<Scalar = f64>> NLSolver<P> for View<P> {
    fn new(_: usize, _: usize) -> Self {
        unreachable!()
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self, _: &mut NLP, _: ArrayBase<S1, Ix1>, _: ArrayBase<S2, Ix1>, _: ArrayBase<S3, Ix1>, _: f64, _: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
    {
        unreachable!()
    }
    fn get_num_iters(&self) -> usize {
        self.iters
    }
    fn get_cur_iter(&self) -> usize {
        self.cur
    }
    fn get_num_conv_fails(&self) -> usize {
        self.fails
    }
}

/// Presents the integrator's problem to the workspace's solver.  Errors that are not the solver's
/// own travel round it in `other`.
struct Bridge<'a, P, NLP> {
    nlp: &'a mut NLP,
    other: Option<failure::Error>,
    ph: PhantomData<P>,
}
impl<'a, P, NLP> Bridge<'a, P, NLP> {
    fn err(&mut self, e: failure::Error) -> Error {
        match e.downcast::<Error>() {
            Ok(e) => e,
            Err(e) => {
                self.other = Some(e);
                Error::IllegalInput {}
            }
        }
    }
}
fn arr<const N: usize, S: Storage<f64, Const<N>, U1>>(v: &Matrix<f64, Const<N>, U1, S>) -> Array1<f64> {
    Array1::from_iter((0..N).map(|i| v[i]))
}
impl<'a, P, NLP, const N: usize> RsProblem<f64, Const<N>> for Bridge<'a, P, NLP>
where
    P: ModelSpec<Scalar = f64>,
    NLP: NLProblem<P>,
{
    fn sys<SB1, SB2>(&mut self, y: &Matrix<f64, Const<N>, U1, SB1>, f: &mut Matrix<f64, Const<N>, U1, SB2>) -> Result<(), Error>
    where
        SB1: Storage<f64, Const<N>, U1>,
        SB2: StorageMut<f64, Const<N>, U1>,
    {
        let mut r = arr(f);
        let res = self.nlp.sys(arr(y).view(), r.view_mut());
        for i in 0..N {
            f[i] = r[i];
        }
        res.map_err(|e| self.err(e))
    }
    fn setup<SA, SB>(&mut self, y: &Matrix<f64, Const<N>, U1, SA>, f: &Matrix<f64, Const<N>, U1, SB>, jbad: bool) -> Result<bool, Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: Storage<f64, Const<N>, U1>,
    {
        let res = self.nlp.setup(arr(y).view(), arr(f).view(), jbad);
        res.map_err(|e| self.err(e))
    }
    fn solve<SA, SB>(&mut self, y: &Matrix<f64, Const<N>, U1, SA>, b: &mut Matrix<f64, Const<N>, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: StorageMut<f64, Const<N>, U1>,
    {
        let mut r = arr(b);
        let res = self.nlp.solve(arr(y).view(), r.view_mut());
        for i in 0..N {
            b[i] = r[i];
        }
        res.map_err(|e| self.err(e))
    }
    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        solver: &NLS,
        y: &Matrix<f64, Const<N>, U1, SA>,
        del: &Matrix<f64, Const<N>, U1, SB>,
        tol: f64,
        ewt: &Matrix<f64, Const<N>, U1, SC>,
    ) -> Result<bool, Error>
    where
        NLS: RsSolver<f64, Const<N>>,
        SA: Storage<f64, Const<N>, U1>,
        SB: Storage<f64, Const<N>, U1>,
        SC: Storage<f64, Const<N>, U1>,
    {
        let v: View<P> = View {
            iters: solver.get_num_iters(),
            cur: solver.get_cur_iter(),
            fails: solver.get_num_conv_fails(),
            ph: PhantomData,
        };
        let res = self.nlp.ctest(&v, arr(y).view(), arr(del).view(), tol, arr(ewt).view());
        res.map_err(|e| self.err(e))
    }
}

macro_rules! sizes {
    ($($v:ident $n:literal),*) => {
        #[derive(Clone, Debug)]
        enum Inner { $($v(rs_nonlinear::Newton<f64, Const<$n>>)),* }

        #[derive(Clone, Debug)]
        pub struct Newton<P> { inner: Inner, ph: PhantomData<P> }

        impl<P: ModelSpec<Scalar = f64>> NLSolver<P> for Newton<P> {
            fn new(size: usize, maxiters: usize) -> Self {
                let inner = match size {
                    $($n => Inner::$v(<rs_nonlinear::Newton<f64, Const<$n>> as RsSolver<f64, Const<$n>>>::new(maxiters)),)*
                    _ => panic!("size {} not bridged", size),
                };
                Newton { inner, ph: PhantomData }
            }
            fn solve<NLP, S1, S2, S3>(
                &mut self,
                problem: &mut NLP,
                y0: ArrayBase<S1, Ix1>,
                mut y: ArrayBase<S2, Ix1>,
                w: ArrayBase<S3, Ix1>,
                tol: f64,
                call_lsetup: bool,
            ) -> Result<(), failure::Error>
            where
                NLP: NLProblem<P>,
                S1: ndarray::Data<Elem = f64>,
                S2: ndarray::DataMut<Elem = f64>,
                S3: ndarray::Data<Elem = f64>,
            {
                let mut b = Bridge { nlp: problem, other: None, ph: PhantomData::<P> };
                let r = match &mut self.inner {
                    $(Inner::$v(s) => {
                        let a0 = SVector::<f64, $n>::from_fn(|i, _| y0[i]);
                        let mut a = SVector::<f64, $n>::from_fn(|i, _| y[i]);
                        let ww = SVector::<f64, $n>::from_fn(|i, _| w[i]);
                        let r = s.solve(&mut b, &a0, &mut a, &ww, tol, call_lsetup);
                        for i in 0..$n { y[i] = a[i]; }
                        r
                    })*
                };
                match (r, b.other) {
                    (Ok(()), _) => Ok(()),
                    (Err(Error::IllegalInput {}), Some(e)) => Err(e),
                    (Err(e), _) => Err(failure::Error::from(e)),
                }
            }
            fn get_num_iters(&self) -> usize {
                match &self.inner { $(Inner::$v(s) => s.get_num_iters()),* }
            }
            fn get_cur_iter(&self) -> usize {
                match &self.inner { $(Inner::$v(s) => s.get_cur_iter()),* }
            }
            fn get_num_conv_fails(&self) -> usize {
                match &self.inner { $(Inner::$v(s) => s.get_num_conv_fails()),* }
            }
        }
    };
}
sizes!(D1 1, D2 2, D3 3, D4 4, D5 5, D6 6, D7 7, D8 8, D9 9, D10 10);
