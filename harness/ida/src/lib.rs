//! Runs scenarios against the integrator through its public seams (problem, tolerance, linear and
//! nonlinear solver) and records everything that crosses them.
use hcore::Rng;
use ida::linear::{Dense, LSolver, LSolverType};
use ida::nonlinear::{Error, NLProblem, NLSolver, Newton};
use ida::tol_control::{TolControl, TolControlSS, TolControlSV};
use ida::traits::*;
use ndarray::prelude::*;
use ndarray::{Data, DataMut};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt::Write as _;

pub fn hx(x: f64) -> String {
    hcore::hex(x)
}
pub fn hv<'a>(it: impl IntoIterator<Item = &'a f64>) -> String {
    hcore::hexv(it.into_iter().cloned())
}
fn av<S: Data<Elem = f64>>(a: &ArrayBase<S, Ix1>) -> Vec<f64> {
    (0..a.len()).map(|i| a[i]).collect()
}

#[derive(Clone, Debug)]
pub struct Step {
    pub out: String,
    pub dir: String,
    /// wanted value of the error test quantity; negative: leave the size the direction gives
    pub c: f64,
    pub ct: Vec<f64>,
    pub iters: usize,
    /// setup again with the flag of a stale Jacobian before answering
    pub refresh: bool,
}
impl Step {
    pub fn of(v: &Value) -> Step {
        Step {
            out: v["o"].as_str().unwrap_or("ok").into(),
            dir: v["d"].as_str().unwrap_or("rand").into(),
            c: v["c"].as_f64().unwrap_or(-1.0),
            ct: v["ct"].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap()).collect()).unwrap_or_default(),
            iters: v["i"].as_u64().unwrap_or(1) as usize,
            refresh: v["j"].as_bool().unwrap_or(false),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Tail {
    pub p_rec: f64,
    pub p_fatal: f64,
    pub p_ct: f64,
    pub p_refresh: f64,
    pub c: Vec<f64>,
    pub d: Vec<String>,
}

/// An accepted point: the step that led to it, the value, the correction.
#[derive(Clone, Debug)]
pub struct Pt {
    pub h: f64,
    pub y: Vec<f64>,
    pub ee: Vec<f64>,
}

pub struct Ctx {
    pub ev: Vec<String>,
    pub probe: bool,
    pub mute: bool,
    pub last_res: (f64, Vec<f64>, Vec<f64>),
    pub script: VecDeque<Step>,
    pub tail: Tail,
    pub rng: Rng,
    pub natt: usize,
    pub budget: usize,
    pub njac: usize,
    pub nroot: usize,
    /// event function evaluations since the last step attempt
    pub rootrun: usize,
    pub sing: Vec<usize>,
    pub hist: Vec<Pt>,
    pub t_acc: f64,
    /// the attempt under way or just finished: t, k, h, predicted, correction
    pub cur: Option<(f64, usize, f64, Vec<f64>, Vec<f64>)>,
}
thread_local! {
    pub static C: RefCell<Ctx> = RefCell::new(Ctx::new());
}
impl Ctx {
    pub fn new() -> Self {
        Ctx {
            ev: vec![],
            probe: false,
            mute: false,
            last_res: (0.0, vec![], vec![]),
            script: VecDeque::new(),
            tail: Tail::default(),
            rng: Rng::new(1),
            natt: 0,
            budget: 4000,
            njac: 0,
            nroot: 0,
            rootrun: 0,
            sing: vec![],
            hist: vec![],
            t_acc: 0.0,
            cur: None,
        }
    }
}
pub fn ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    C.with(|c| f(&mut c.borrow_mut()))
}
pub fn log(s: String) {
    ctx(|c| {
        if !c.mute {
            c.ev.push(s)
        }
    })
}

// ---------------------------------------------------------------------------------------------
// Problems

#[derive(Clone, Debug)]
pub enum RootFn {
    /// sign * prod (t - a)
    Poly(f64, Vec<f64>),
    /// y[i] - off
    Comp(usize, f64),
    /// identically zero until t = a, then t - a (in the direction of integration)
    Late(f64),
    /// sign * (t - a) with a flat zero stretch of half width w around a
    Flat(f64, f64, f64),
    /// sign * prod (t - a) between lo and hi, zero elsewhere
    Window(f64, Vec<f64>, f64, f64),
}

/// A component with a known course s(t) = a0 + a1 t + a2 t^2 + b sin(w t) + e exp(-d t):
/// y' = s' - l (y - s) - k (y^2 - s^2) - m (z - z's course), z the next component, or, for an
/// algebraic one, 0 = l (y - s) + k (y^2 - s^2) + m (z - z's course)
#[derive(Clone, Debug)]
pub struct Made {
    pub c: [f64; 7],
    pub l: f64,
    pub k: f64,
    pub m: f64,
    pub alg: bool,
}
impl Made {
    fn s(&self, t: f64) -> f64 {
        let [a0, a1, a2, b, w, e, d] = self.c;
        a0 + a1 * t + a2 * t * t + b * (w * t).sin() + e * (-d * t).exp()
    }
    fn ds(&self, t: f64) -> f64 {
        let [_, a1, a2, b, w, e, d] = self.c;
        a1 + 2.0 * a2 * t + b * w * (w * t).cos() - e * d * (-d * t).exp()
    }
}

#[derive(Clone, Debug)]
pub struct Prob {
    pub kind: String,
    pub n: usize,
    pub made: Vec<Made>,
    pub roots: Vec<RootFn>,
    pub mirror: bool,
    /// units in which the integrator sees time, components, residual and event functions
    pub tu: f64,
    pub yu: Vec<f64>,
    pub ru: f64,
    pub gu: Vec<f64>,
}
impl Prob {
    fn inner(&self, y: &[f64], per: f64) -> Vec<f64> {
        y.iter().zip(&self.yu).map(|(a, u)| a * u / per).collect()
    }
    fn f(&self, t: f64, y: &[f64], p: &[f64]) -> Vec<f64> {
        match self.kind.as_str() {
            "script" => (0..self.n).map(|i| p[i] + 0.5 * y[i] + t).collect(),
            "decay" => (0..self.n).map(|i| p[i] + (1.0 + i as f64 * 10.0) * (y[i] - t.cos())).collect(),
            "osc" => vec![p[0] - y[1], p[1] + y[0]],
            "fastosc" => vec![p[0] - 40.0 * y[1], p[1] + 40.0 * y[0]],
            "dae" => vec![p[0] + (2.0 + t.sin()) * y[0] - y[1], y[1] - y[0] * y[0] * 0.5 - 0.1 * t.cos()],
            "tdep" => vec![p[0] + (1.0 + 50.0 * t * t) * y[0] - 1.0],
            "vdp" => vec![p[0] - y[1], p[1] - 20.0 * ((1.0 - y[0] * y[0]) * y[1]) + y[0]],
            "cubic" => vec![p[0] - 3.0 * t * t + 2.0 * t],
            "made" => (0..self.n)
                .map(|i| {
                    let (a, j) = (&self.made[i], (i + 1) % self.n);
                    let s = a.s(t);
                    let e = a.l * (y[i] - s) + a.k * (y[i] * y[i] - s * s) + a.m * (y[j] - self.made[j].s(t));
                    if a.alg { e } else { p[i] - a.ds(t) + e }
                })
                .collect(),
            "roberts" => {
                let r0 = -0.04 * y[0] + 1.0e4 * y[1] * y[2];
                vec![r0 - p[0], -r0 - 3.0e7 * y[1] * y[1] - p[1], y[0] + y[1] + y[2] - 1.0]
            }
            k => panic!("problem {}", k),
        }
    }
    fn j(&self, t: f64, cj: f64, y: &[f64]) -> Vec<Vec<f64>> {
        let n = self.n;
        let mut m = vec![vec![0.0; n]; n];
        match self.kind.as_str() {
            "script" => (0..n).for_each(|i| m[i][i] = cj + 0.5),
            "decay" => (0..n).for_each(|i| m[i][i] = cj + 1.0 + i as f64 * 10.0),
            "osc" => m = vec![vec![cj, -1.0], vec![1.0, cj]],
            "fastosc" => m = vec![vec![cj, -40.0], vec![40.0, cj]],
            "dae" => m = vec![vec![cj + 2.0 + t.sin(), -1.0], vec![-y[0], 1.0]],
            "tdep" => m[0][0] = cj + 1.0 + 50.0 * t * t,
            "vdp" => {
                m = vec![
                    vec![cj, -1.0],
                    vec![40.0 * y[0] * y[1] + 1.0, cj - 20.0 * (1.0 - y[0] * y[0])],
                ]
            }
            "cubic" => m[0][0] = cj,
            "made" => (0..n).for_each(|i| {
                let a = &self.made[i];
                m[i][(i + 1) % n] += a.m;
                m[i][i] += a.l + 2.0 * a.k * y[i] + if a.alg { 0.0 } else { cj };
            }),
            "roberts" => {
                m = vec![
                    vec![-0.04 - cj, 1.0e4 * y[2], 1.0e4 * y[1]],
                    vec![0.04, -1.0e4 * y[2] - 6.0e7 * y[1] - cj, -1.0e4 * y[1]],
                    vec![1.0, 1.0, 1.0],
                ]
            }
            k => panic!("problem {}", k),
        }
        m
    }
    pub fn g(&self, t: f64, y: &[f64]) -> Vec<f64> {
        let t = self.tu * if self.mirror { -t } else { t };
        let y = self.inner(y, 1.0);
        self.roots
            .iter()
            .zip(&self.gu)
            .map(|(r, u)| u * match r {
                RootFn::Poly(s, a) => a.iter().fold(*s, |p, a| p * (t - a)),
                RootFn::Comp(i, o) => y[*i] - o,
                RootFn::Window(s, a, lo, hi) => {
                    if t <= *lo || *hi <= t {
                        0.0
                    } else {
                        a.iter().fold(*s, |p, a| p * (t - a))
                    }
                }
                RootFn::Late(a) => {
                    if t <= *a {
                        0.0
                    } else {
                        t - a
                    }
                }
                RootFn::Flat(s, a, w) => {
                    if (t - a).abs() <= *w {
                        0.0
                    } else {
                        s * (t - a)
                    }
                }
            })
            .collect()
    }
}
impl ModelSpec for Prob {
    type Scalar = f64;
    type Dim = Ix1;
    fn model_size(&self) -> usize {
        self.n
    }
}
impl Residual for Prob {
    fn res<S1, S2, S3>(&self, tt: f64, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut rr: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
        hcore::tick();
        let (y, p) = (av(&yy), av(&yp));
        let (ti, yi, pi) = (tt * self.tu, self.inner(&y, 1.0), self.inner(&p, self.tu));
        let r = if self.mirror {
            self.f(-ti, &yi, &pi.iter().map(|x| -x).collect::<Vec<_>>())
        } else {
            self.f(ti, &yi, &pi)
        };
        let r: Vec<f64> = r.iter().map(|x| x * self.ru).collect();
        for i in 0..self.n {
            rr[i] = r[i];
        }
        ctx(|c| {
            c.last_res = (tt, y.clone(), p.clone());
            if !c.probe && !c.mute {
                c.ev.push(format!(r#"{{"e":"res","t":{},"y":{},"yp":{},"r":{}}}"#, hx(tt), hv(&y), hv(&p), hv(&r)));
            }
        });
    }
}
impl Jacobian for Prob {
    fn jac<S1, S2, S3, S4>(
        &self,
        tt: f64,
        cj: f64,
        yy: ArrayBase<S1, Ix1>,
        yp: ArrayBase<S2, Ix1>,
        rr: ArrayBase<S3, Ix1>,
        mut jac: ArrayBase<S4, Ix2>,
    ) where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: Data<Elem = f64>,
        S4: DataMut<Elem = f64>,
    {
        let (y, p, r) = (av(&yy), av(&yp), av(&rr));
        let (ti, ci, yi) = (tt * self.tu, cj / self.tu, self.inner(&y, 1.0));
        let m = if self.mirror { self.j(-ti, -ci, &yi) } else { self.j(ti, ci, &yi) };
        let nj = ctx(|c| {
            c.njac += 1;
            c.njac
        });
        let sing = ctx(|c| c.sing.contains(&nj));
        let zero = (0..self.n).all(|i| (0..self.n).all(|j| jac[[i, j]] == 0.0));
        for i in 0..self.n {
            for j in 0..self.n {
                jac[[i, j]] = if sing { 0.0 } else { m[i][j] * (self.yu[j] * self.ru) };
            }
        }
        log(format!(
            r#"{{"e":"jac","t":{},"cj":{},"y":{},"yp":{},"r":{},"zero":{},"sing":{}}}"#,
            hx(tt), hx(cj), hv(&y), hv(&p), hv(&r), zero, sing
        ));
    }
}
impl Root for Prob {
    fn num_roots(&self) -> usize {
        self.roots.len()
    }
    fn root<S1, S2, S3>(&self, t: f64, y: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut gout: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
        hcore::tick();
        ctx(|c| {
            c.nroot += 1;
            c.rootrun += 1;
            if c.rootrun > 3000 {
                panic!("rootloop");
            }
            if c.nroot > 40 * c.budget {
                panic!("runaway");
            }
        });
        let y = av(&y);
        let g = self.g(t, &y);
        for i in 0..g.len() {
            gout[i] = g[i];
        }
        log(format!(r#"{{"e":"root","t":{},"y":{},"yp":{},"g":{}}}"#, hx(t), hv(&y), hv(&av(&yp)), hv(&g)));
    }
}

// ---------------------------------------------------------------------------------------------
// Tolerances

#[derive(Clone, Debug)]
pub enum Tol {
    SS(TolControlSS<f64>),
    SV(TolControlSV<f64>),
    /// a user-supplied rule that gives component 0 the weight `w` from the `n`-th call on
    Bad(TolControlSS<f64>, f64, std::cell::Cell<i64>),
}
impl TolControl<f64> for Tol {
    fn ewt_set<S1, S2>(&self, ycur: ArrayBase<S1, Ix1>, mut ewt: ArrayBase<S2, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: DataMut<Elem = f64>,
    {
        match self {
            Tol::SS(t) => t.ewt_set(ycur, ewt),
            Tol::SV(t) => t.ewt_set(ycur, ewt),
            Tol::Bad(t, w, n) => {
                t.ewt_set(ycur, ewt.view_mut());
                n.set(n.get() - 1);
                if n.get() <= 0 {
                    ewt[0] = *w;
                    log(r#"{"e":"badw"}"#.into());
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Linear solver that records

#[derive(Clone, Debug)]
pub struct LogLs(Dense<f64>);
impl LSolver<f64> for LogLs {
    fn new(size: usize) -> Self {
        LogLs(Dense::new(size))
    }
    fn get_type(&self) -> LSolverType {
        self.0.get_type()
    }
    fn setup<S1: DataMut<Elem = f64>>(&mut self, mut mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error> {
        let r = self.0.setup(mat_a.view_mut());
        log(format!(r#"{{"e":"lu","ok":{}}}"#, r.is_ok()));
        r
    }
    fn solve<S1, S2, S3>(
        &self,
        mat_a: ArrayBase<S1, Ix2>,
        mut x: ArrayBase<S2, Ix1>,
        b: ArrayBase<S3, Ix1>,
        tol: f64,
    ) -> Result<(), failure::Error>
    where
        S1: Data<Elem = f64>,
        S2: DataMut<Elem = f64>,
        S3: Data<Elem = f64>,
    {
        let r = self.0.solve(mat_a, x.view_mut(), b, tol);
        log(format!(r#"{{"e":"lx","x":{}}}"#, hv(&av(&x))));
        r
    }
}

// ---------------------------------------------------------------------------------------------
// Nonlinear solvers

const HUGE: f64 = 4.149515568880993e180;

pub fn harm(k: usize) -> f64 {
    (1..=k).map(|i| 1.0 / i as f64).sum()
}

/// Asks the problem for its prediction: two residuals with corrections zero and huge (a power of two).
fn probe<P, NLP>(nlp: &mut NLP, n: usize) -> Result<(f64, Vec<f64>, Vec<f64>, f64), failure::Error>
where
    P: ModelSpec<Scalar = f64>,
    NLP: NLProblem<P>,
{
    let mut r = Array1::<f64>::zeros(n);
    ctx(|c| c.probe = true);
    let a = nlp.sys(Array1::<f64>::zeros(n).view(), r.view_mut());
    let (t, y, yp) = ctx(|c| c.last_res.clone());
    let b = nlp.sys(Array1::<f64>::from_elem(n, HUGE).view(), r.view_mut());
    let (_, _, yp2) = ctx(|c| c.last_res.clone());
    ctx(|c| c.probe = false);
    a?;
    b?;
    let cj = yp2[0] / HUGE;
    Ok((t, y, yp, cj))
}

fn norm(x: &[f64], w: &[f64]) -> f64 {
    (x.iter().zip(w).map(|(a, b)| (a * b) * (a * b)).sum::<f64>() / x.len() as f64).sqrt()
}

/// Value at +h of the polynomial through the k+1 most recent points.
fn extrap(hist: &[Pt], k: usize, h: f64) -> Vec<f64> {
    let mut s = vec![];
    let mut t = 0.0;
    for p in hist.iter().take(k + 1) {
        s.push(t);
        t -= p.h;
    }
    let m = s.len();
    let n = hist[0].y.len();
    (0..n)
        .map(|c| {
            let mut p: Vec<f64> = hist.iter().take(m).map(|x| x.y[c]).collect();
            for j in 1..m {
                for i in 0..m - j {
                    p[i] = ((h - s[i + j]) * p[i] - (h - s[i]) * p[i + 1]) / (s[i] - s[i + j]);
                }
            }
            p[0]
        })
        .collect()
}

/// Error coefficient of an attempt of order k and size h.
fn coef(hist: &[Pt], k: usize, h: f64) -> f64 {
    let mut psi = vec![h];
    for i in 0..k {
        let prev = psi[i];
        psi.push(prev + hist.get(i).map(|p| if p.h == 0.0 { h } else { p.h }).unwrap_or(h));
    }
    let al: Vec<f64> = psi.iter().map(|p| h / p).collect();
    let al0: f64 = -al.iter().take(k).sum::<f64>();
    (al[k] - harm(k) - al0).abs().max(al[k])
}

impl Ctx {
    /// Works out from the new attempt whether the one before was accepted.
    fn settle(&mut self, t: f64, cj: f64) -> (usize, f64) {
        let mut best = (f64::INFINITY, false, 1usize, 0.0);
        let prev = self.cur.clone();
        let mut cand = vec![(self.t_acc, false)];
        if let Some(p) = &prev {
            cand.push((p.0, true));
        }
        for (tb, acc) in cand {
            for k in 1..=5usize {
                let h = harm(k) / cj;
                let mis = ((tb + h - t) / h).abs();
                if mis < best.0 {
                    best = (mis, acc, k, h);
                }
            }
        }
        if best.1 {
            let (tp, _, h, pr, ee) = prev.unwrap();
            let y = pr.iter().zip(&ee).map(|(a, b)| a + b).collect();
            self.hist.insert(0, Pt { h, y, ee });
            self.hist.truncate(8);
            self.t_acc = tp;
        }
        (best.2, best.3)
    }
}

/// Answers every solve from a script.
#[derive(Debug)]
pub struct ScriptNls {
    size: usize,
    niters: usize,
    cur: usize,
    nfails: usize,
}

fn pick(c: &mut Ctx) -> Step {
    if let Some(s) = c.script.pop_front() {
        return s;
    }
    let t = c.tail.clone();
    let u = c.rng.unit();
    let out = if u < t.p_fatal {
        "fatal"
    } else if u < t.p_fatal + t.p_rec {
        "rec"
    } else {
        "ok"
    };
    let cc = if t.c.is_empty() { 0.01 } else { t.c[c.rng.below(t.c.len() as u64) as usize] };
    let d = if t.d.is_empty() { "rand".to_string() } else { t.d[c.rng.below(t.d.len() as u64) as usize].clone() };
    let mut ct = vec![];
    if c.rng.unit() < t.p_ct {
        let m = c.rng.int(1, 4);
        let mut x = (10f64).powf(c.rng.sym() * 5.0 - 3.0);
        for _ in 0..m {
            ct.push(x);
            x *= if c.rng.below(6) == 0 { 0.95 } else { c.rng.unit() };
        }
    }
    let refresh = c.rng.unit() < t.p_refresh;
    let iters = c.rng.int(1, 4) as usize;
    Step { out: out.into(), dir: d, c: cc, ct, iters, refresh }
}

impl<P: ModelSpec<Scalar = f64>> NLSolver<P> for ScriptNls {
    fn new(size: usize, _maxiters: usize) -> Self {
        ScriptNls { size, niters: 0, cur: 0, nfails: 0 }
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        nlp: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        mut y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: f64,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: Data<Elem = f64>,
        S2: DataMut<Elem = f64>,
        S3: Data<Elem = f64>,
    {
        hcore::tick();
        let n = self.size;
        let (t, yp, ypp, cj) = probe::<P, NLP>(nlp, n)?;
        let w = av(&w);
        log(format!(
            r#"{{"e":"att","t":{},"y":{},"yp":{},"cj":{},"w":{},"tol":{},"call":{},"y0":{},"np":2}}"#,
            hx(t), hv(&yp), hv(&ypp), hx(cj), hv(&w), hx(tol), call_lsetup, hv(&av(&y0))
        ));
        let (st, k, h) = ctx(|c| {
            c.natt += 1;
            c.rootrun = 0;
            if c.natt > c.budget {
                panic!("runaway");
            }
            let (k, h) = c.settle(t, cj);
            (pick(c), k, h)
        });
        let ee: Vec<f64> = ctx(|c| {
            let mut d: Vec<f64> = match st.dir.as_str() {
                "zero" => vec![0.0; n],
                "lower" | "lower2" => {
                    let j = if st.dir == "lower" { 1 } else { 2 };
                    if k > j || (k == j && c.hist.len() > 1) {
                        let lo = extrap(&c.hist, k - j, h);
                        let del = 0.2 * c.rng.unit();
                        (0..n).map(|i| -(1.0 - del) * (yp[i] - lo[i])).collect()
                    } else {
                        vec![0.0; n]
                    }
                }
                "same" => {
                    let del = 0.3 * c.rng.sym();
                    c.hist[0].ee.iter().map(|x| x * (1.0 + del)).collect()
                }
                "one" => (0..n).map(|i| if i == 0 { 1.0 / w[0] } else { 0.0 }).collect(),
                _ => (0..n).map(|i| c.rng.sym() / w[i]).collect(),
            };
            if st.c >= 0.0 {
                let q = norm(&d, &w) * coef(&c.hist, k, h);
                if q > 0.0 {
                    d.iter_mut().for_each(|x| *x *= st.c / q);
                }
            }
            d
        });
        ctx(|c| c.cur = Some((t, k, h, yp.clone(), ee.clone())));
        let mut r = Array1::<f64>::zeros(n);
        let zero = Array1::<f64>::zeros(n);
        let res = (|| -> Result<&'static str, failure::Error> {
            if call_lsetup {
                nlp.sys(zero.view(), r.view_mut())?;
                nlp.setup(zero.view(), r.view(), false)?;
            }
            if st.refresh {
                nlp.sys(zero.view(), r.view_mut())?;
                nlp.setup(zero.view(), r.view(), true)?;
            }
            for (m, x) in st.ct.iter().enumerate() {
                // one linear solve and one convergence test per listed norm
                self.niters += 1;
                self.cur = m;
                let mut b = Array1::<f64>::from_elem(n, 1.0);
                nlp.solve(zero.view(), b.view_mut())?;
                log(format!(r#"{{"e":"nsol","x":{}}}"#, hv(&av(&b))));
                let u: Vec<f64> = ctx(|c| (0..n).map(|i| (c.rng.sym() + 0.01) / w[i]).collect());
                let q = norm(&u, &w);
                let del: Vec<f64> = u.iter().map(|v| v * x / q).collect();
                let da = Array1::from_iter(del.iter().cloned());
                let wa = Array1::from_iter(w.iter().cloned());
                let o = nlp.ctest(self, zero.view(), da.view(), tol, wa.view());
                log_ctest(m, &del, tol, &w, &o);
                if o? {
                    break;
                }
            }
            match st.out.as_str() {
                "rec" | "fatal" => {
                    for i in 0..n {
                        y[i] = 1.0e3 * (1.0 + i as f64);
                    }
                    if st.out == "rec" {
                        Err(failure::Error::from(Error::ConvergenceRecover {}))
                    } else {
                        Err(failure::Error::from(Error::IllegalInput {}))
                    }
                }
                _ => {
                    let ea = Array1::from_iter(ee.iter().cloned());
                    nlp.sys(ea.view(), r.view_mut())?;
                    for i in 0..n {
                        y[i] = ee[i];
                    }
                    if st.ct.is_empty() {
                        self.niters += st.iters;
                    }
                    Ok("ok")
                }
            }
        })();
        if res.is_err() {
            self.nfails += 1;
        }
        log_end(&res.as_ref().map(|_| ()), &ee, self.niters, self.nfails);
        res.map(|_| ())
    }
    fn get_num_iters(&self) -> usize {
        self.niters
    }
    fn get_cur_iter(&self) -> usize {
        self.cur
    }
    fn get_num_conv_fails(&self) -> usize {
        self.nfails
    }
}

fn code(e: &failure::Error) -> String {
    if let Some(e) = e.downcast_ref::<Error>() {
        return match e {
            Error::ConvergenceRecover {} => "rec".into(),
            _ => "fatal".into(),
        };
    }
    let s = format!("{:?}", e);
    if s.starts_with("RecoverableFail") {
        "rec".into()
    } else {
        "fatal".into()
    }
}
/// First identifier of a debug rendering.
pub fn name_of(s: &str) -> String {
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}
fn log_end(r: &Result<(), &failure::Error>, ee: &[f64], ni: usize, nf: usize) {
    let out = match r {
        Ok(()) => "ok".to_string(),
        Err(e) => code(e),
    };
    let name = match r {
        Ok(()) => String::new(),
        Err(e) => name_of(&format!("{:?}", e)),
    };
    log(format!(r#"{{"e":"attend","out":"{}","name":"{}","ee":{},"ni":{},"nf":{}}}"#, out, name, hv(ee), ni, nf));
}
fn log_ctest(m: usize, del: &[f64], tol: f64, w: &[f64], o: &Result<bool, failure::Error>) {
    let out = match o {
        Ok(true) => "conv".to_string(),
        Ok(false) => "not".to_string(),
        Err(e) => code(e),
    };
    log(format!(
        r#"{{"e":"ctest","m":{},"del":{},"tol":{},"w":{},"out":"{}"}}"#,
        m, hv(del), hx(tol), hv(w), out
    ));
}

/// The real Newton solver, with the conversation recorded.
#[derive(Debug)]
pub struct SpyNls<P> {
    inner: Newton<P>,
    size: usize,
    probe: bool,
}
struct SpyNlp<'a, NLP>(&'a mut NLP);
impl<'a, P, NLP> NLProblem<P> for SpyNlp<'a, NLP>
where
    P: ModelSpec<Scalar = f64>,
    NLP: NLProblem<P>,
{
    fn sys<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, f: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: Data<Elem = f64>,
        S2: DataMut<Elem = f64>,
    {
        self.0.sys(y, f)
    }
    fn setup<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, f: ArrayBase<S2, Ix1>, jbad: bool) -> Result<bool, failure::Error>
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
    {
        self.0.setup(y, f, jbad)
    }
    fn solve<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, mut b: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: Data<Elem = f64>,
        S2: DataMut<Elem = f64>,
    {
        let r = self.0.solve(y, b.view_mut());
        log(format!(r#"{{"e":"nsol","x":{}}}"#, hv(&av(&b))));
        r
    }
    fn ctest<S1, S2, S3, NLS>(
        &mut self,
        solver: &NLS,
        y: ArrayBase<S1, Ix1>,
        del: ArrayBase<S2, Ix1>,
        tol: f64,
        ewt: ArrayBase<S3, Ix1>,
    ) -> Result<bool, failure::Error>
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: Data<Elem = f64>,
        NLS: NLSolver<P>,
    {
        let (d, w) = (av(&del), av(&ewt));
        let m = solver.get_cur_iter();
        let o = self.0.ctest(solver, y, del, tol, ewt);
        log_ctest(m, &d, tol, &w, &o);
        o
    }
}
impl<P: ModelSpec<Scalar = f64>> NLSolver<P> for SpyNls<P> {
    fn new(size: usize, maxiters: usize) -> Self {
        SpyNls { inner: Newton::new(size, maxiters), size, probe: ctx(|c| c.tail.p_ct >= 0.0) }
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        nlp: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        mut y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: f64,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: Data<Elem = f64>,
        S2: DataMut<Elem = f64>,
        S3: Data<Elem = f64>,
    {
        ctx(|c| {
            c.natt += 1;
            c.rootrun = 0;
            if c.natt > c.budget {
                panic!("runaway");
            }
        });
        let wv = av(&w);
        let y0v = av(&y0);
        let (t, yp, ypp, cj) = probe::<P, NLP>(nlp, self.size)?;
        log(format!(
            r#"{{"e":"att","t":{},"y":{},"yp":{},"cj":{},"w":{},"tol":{},"call":{},"y0":{},"np":2}}"#,
            hx(t), hv(&yp), hv(&ypp), hx(cj), hv(&wv), hx(tol), call_lsetup, hv(&y0v)
        ));
        let r = self.inner.solve(&mut SpyNlp(nlp), y0, y.view_mut(), w, tol, call_lsetup);
        let ee = av(&y);
        log_end(&r.as_ref().map(|_| ()), &ee, self.inner.get_num_iters(), self.inner.get_num_conv_fails());
        let _ = self.probe;
        r
    }
    fn get_num_iters(&self) -> usize {
        self.inner.get_num_iters()
    }
    fn get_cur_iter(&self) -> usize {
        self.inner.get_cur_iter()
    }
    fn get_num_conv_fails(&self) -> usize {
        self.inner.get_num_conv_fails()
    }
}

pub fn fvec(v: &Value) -> Vec<f64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap()).collect()).unwrap_or_default()
}
pub fn push(s: &mut String, x: std::fmt::Arguments) {
    let _ = s.write_fmt(x);
}
