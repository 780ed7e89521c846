//! Support for demonstrations: a problem given by plain functions, a nonlinear solver that gives
//! prescribed corrections, and a log of what the integrator asked of them.
#![allow(dead_code)]
pub use ida::linear::Dense;
pub use ida::nonlinear::{Error, NLProblem, NLSolver, Newton};
pub use ida::tol_control::*;
pub use ida::traits::*;
pub use ida::{Ida, IdaSolveStatus, IdaTask};
pub use ndarray::prelude::*;
use ndarray::{Data, DataMut};
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Clone, Debug)]
pub enum Ev {
    Res(f64, Vec<f64>, Vec<f64>),
    Jac(f64, f64, Vec<f64>, Vec<f64>),
    Root(f64, Vec<f64>),
    /// attempt: time, predicted y, predicted y', factor, weights, setup asked for
    Att(f64, Vec<f64>, Vec<f64>, f64, Vec<f64>, bool),
}
/// What the scripted solver answers.
#[derive(Clone, Debug)]
pub enum Ans {
    Ok(Vec<f64>),
    Rec,
    Fatal,
}
#[derive(Default)]
pub struct Ctx {
    pub log: Vec<Ev>,
    pub script: VecDeque<Ans>,
    pub quiet: Vec<f64>,
    last: (f64, Vec<f64>, Vec<f64>),
    mute: bool,
    calls: usize,
}
thread_local!(pub static C: RefCell<Ctx> = RefCell::new(Ctx::default()));
pub fn ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    C.with(|c| f(&mut c.borrow_mut()))
}
pub fn tick() {
    if ctx(|c| { c.calls += 1; c.calls }) > 200_000 {
        println!("BROKEN: no end");
        std::process::exit(1);
    }
}
pub fn log() -> Vec<Ev> {
    ctx(|c| std::mem::take(&mut c.log))
}
pub fn script(v: Vec<Ans>) {
    ctx(|c| c.script = v.into_iter().collect())
}
pub fn check(b: bool, what: &str) {
    if !b {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
pub fn near(a: f64, b: f64, r: f64) -> bool {
    (a - b).abs() <= r * (a.abs() + b.abs() + 1e-300)
}

#[derive(Clone, Debug)]
pub struct P {
    pub n: usize,
    pub nr: usize,
    pub f: fn(f64, &[f64], &[f64], &mut [f64]),
    /// row-major
    pub j: fn(f64, f64, &[f64], &[f64], &mut [f64]),
    pub g: fn(f64, &[f64], &mut [f64]),
}
fn av<S: Data<Elem = f64>>(a: &ArrayBase<S, Ix1>) -> Vec<f64> {
    (0..a.len()).map(|i| a[i]).collect()
}
impl ModelSpec for P {
    type Scalar = f64;
    type Dim = Ix1;
    fn model_size(&self) -> usize {
        self.n
    }
}
impl Residual for P {
    fn res<S1, S2, S3>(&self, t: f64, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut rr: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
        tick();
        let (y, p) = (av(&yy), av(&yp));
        let mut r = vec![0.0; self.n];
        (self.f)(t, &y, &p, &mut r);
        for i in 0..self.n {
            rr[i] = r[i];
        }
        ctx(|c| {
            c.last = (t, y.clone(), p.clone());
            if !c.mute {
                c.log.push(Ev::Res(t, y, p))
            }
        });
    }
}
impl Jacobian for P {
    fn jac<S1, S2, S3, S4>(&self, t: f64, cj: f64, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, _r: ArrayBase<S3, Ix1>, mut jac: ArrayBase<S4, Ix2>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: Data<Elem = f64>,
        S4: DataMut<Elem = f64>,
    {
        let (y, p) = (av(&yy), av(&yp));
        let mut m = vec![0.0; self.n * self.n];
        (self.j)(t, cj, &y, &p, &mut m);
        for i in 0..self.n {
            for k in 0..self.n {
                jac[[i, k]] = m[i * self.n + k];
            }
        }
        ctx(|c| c.log.push(Ev::Jac(t, cj, y, p)));
    }
}
impl Root for P {
    fn num_roots(&self) -> usize {
        self.nr
    }
    fn root<S1, S2, S3>(&self, t: f64, y: ArrayBase<S1, Ix1>, _yp: ArrayBase<S2, Ix1>, mut gout: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
        tick();
        let mut g = vec![0.0; self.nr];
        (self.g)(t, &av(&y), &mut g);
        for i in 0..self.nr {
            gout[i] = g[i];
        }
        ctx(|c| c.log.push(Ev::Root(t, g)));
    }
}

/// Answers from the script, then `quiet`.
#[derive(Clone, Debug)]
pub struct Scripted(usize);
impl NLSolver<P> for Scripted {
    fn new(size: usize, _m: usize) -> Self {
        Scripted(size)
    }
    fn solve<NLP, S1, S2, S3>(&mut self, nlp: &mut NLP, _y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, w: ArrayBase<S3, Ix1>, _tol: f64, call: bool) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: Data<Elem = f64>,
        S2: DataMut<Elem = f64>,
        S3: Data<Elem = f64>,
    {
        tick();
        let n = self.0;
        let mut r = Array1::<f64>::zeros(n);
        ctx(|c| c.mute = true);
        nlp.sys(Array1::<f64>::zeros(n).view(), r.view_mut())?;
        let a = ctx(|c| c.last.clone());
        nlp.sys(Array1::<f64>::from_elem(n, 1.0).view(), r.view_mut())?;
        let b = ctx(|c| c.last.clone());
        ctx(|c| {
            c.mute = false;
            c.log.push(Ev::Att(a.0, a.1.clone(), a.2.clone(), b.2[0] - a.2[0], av(&w), call))
        });
        if call {
            nlp.setup(Array1::<f64>::zeros(n).view(), r.view(), false)?;
        }
        match ctx(|c| c.script.pop_front()).unwrap_or_else(|| Ans::Ok(ctx(|c| c.quiet.clone()))) {
            Ans::Ok(e) => {
                for i in 0..n {
                    y[i] = if i < e.len() { e[i] } else { 0.0 };
                }
                Ok(())
            }
            Ans::Rec => Err(failure::Error::from(Error::ConvergenceRecover {})),
            Ans::Fatal => Err(failure::Error::from(Error::IllegalInput {})),
        }
    }
    fn get_cur_iter(&self) -> usize {
        0
    }
    fn get_num_conv_fails(&self) -> usize {
        0
    }
}

pub type I<N> = Ida<P, Dense<f64>, N, TolControlSV<f64>>;
pub fn ida<N: NLSolver<P>>(p: P, y0: &[f64], yp0: &[f64], rtol: f64, atol: f64) -> I<N> {
    let a = |v: &[f64]| Array1::from_iter(v.iter().cloned());
    let n = p.n;
    Ida::new(p, a(y0), a(yp0), TolControlSV::new(rtol, Array1::from_elem(n, atol)))
}
pub fn diag(_t: f64, cj: f64, y: &[f64], _p: &[f64], m: &mut [f64]) {
    let n = y.len();
    for i in 0..n {
        m[i * n + i] = cj;
    }
}
/// y' = 0
pub fn still(n: usize) -> P {
    P { n, nr: 0, f: |_, _, p, r| r.copy_from_slice(p), j: diag, g: |_, _, _| () }
}
/// y' = f(t)
pub fn none(_t: f64, _y: &[f64], _g: &mut [f64]) {}
pub fn one<N: NLSolver<P>>(i: &mut I<N>, tout: f64) -> (Result<IdaSolveStatus, failure::Error>, f64) {
    let mut t = f64::NAN;
    let r = i.solve(tout, &mut t, IdaTask::OneStep);
    (r, t)
}
pub fn normal<N: NLSolver<P>>(i: &mut I<N>, tout: f64) -> (Result<IdaSolveStatus, failure::Error>, f64) {
    let mut t = f64::NAN;
    let r = i.solve(tout, &mut t, IdaTask::Normal);
    (r, t)
}
pub fn yy<N: NLSolver<P>>(i: &I<N>) -> Vec<f64> {
    i.get_yy().iter().cloned().collect()
}
pub fn yp<N: NLSolver<P>>(i: &I<N>) -> Vec<f64> {
    i.get_yp().iter().cloned().collect()
}
pub fn ir<N: NLSolver<P>>(i: &I<N>) -> Vec<i64> {
    i.get_root_info().iter().map(|x| *x as i64).collect()
}
pub fn atts(v: &[Ev]) -> Vec<(f64, Vec<f64>, Vec<f64>, f64, Vec<f64>, bool)> {
    v.iter().filter_map(|e| match e { Ev::Att(t, y, p, c, w, s) => Some((*t, y.clone(), p.clone(), *c, w.clone(), *s)), _ => None }).collect()
}
