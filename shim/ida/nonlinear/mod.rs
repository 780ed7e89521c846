//! The nonlinear-solver interface the integrator is written against, bridged to the `nonlinear`
//! crate of the workspace.
use crate::traits::ModelSpec;
use ndarray::prelude::*;

pub mod newton;
pub use newton::Newton;
pub use rs_nonlinear::Error;

pub trait NLProblem<P: ModelSpec> {
    fn sys<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, f: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;
    fn setup<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, f: ArrayBase<S2, Ix1>, jbad: bool) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>;
    fn solve<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, b: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;
    fn ctest<S1, S2, S3, NLS>(
        &mut self,
        solver: &NLS,
        y: ArrayBase<S1, Ix1>,
        del: ArrayBase<S2, Ix1>,
        tol: P::Scalar,
        ewt: ArrayBase<S3, Ix1>,
    ) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>,
        NLS: NLSolver<P>;
}

pub trait NLSolver<P: ModelSpec> {
    fn new(size: usize, maxiters: usize) -> Self;
    fn setup<S1>(&mut self, _y: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = P::Scalar>,
    {
        Ok(())
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        problem: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: P::Scalar,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>;
    fn get_num_iters(&self) -> usize {
        0
    }
    fn get_cur_iter(&self) -> usize;
    fn get_num_conv_fails(&self) -> usize;
}
