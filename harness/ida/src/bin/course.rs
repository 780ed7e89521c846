//! Integrates the sample problems with the crate's own solvers and tolerance controls.
//! Scenarios in (one JSON object per line), traces out (likewise).
//!   {id, prob: roberts|crank, y0, yp0, r, a, times, calls: [[mode, t, n], ..]}
//! After every return the solution is also asked for at those of `times` that lie in the last step.
use hida::*;
use ida::linear::Dense;
use ida::nonlinear::Newton;
use ida::sample_problems::{Roberts, SlCrank};
use ida::tol_control::{TolControl, TolControlSS, TolControlSV};
use ida::traits::*;
use ida::{Ida, IdaSolveStatus, IdaTask};
use ndarray::prelude::*;
use ndarray::{Data, DataMut};
use serde_json::Value;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The mechanism with a Jacobian by central differences.
#[derive(Clone, Debug)]
struct Crank(SlCrank);
impl ModelSpec for Crank {
    type Scalar = f64;
    type Dim = Ix1;
    fn model_size(&self) -> usize {
        self.0.model_size()
    }
}
impl Residual for Crank {
    fn res<S1, S2, S3>(&self, t: f64, y: ArrayBase<S1, Ix1>, p: ArrayBase<S2, Ix1>, r: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
        hcore::tick();
        self.0.res(t, y, p, r)
    }
}
impl Jacobian for Crank {
    fn jac<S1, S2, S3, S4>(
        &self,
        t: f64,
        cj: f64,
        y: ArrayBase<S1, Ix1>,
        p: ArrayBase<S2, Ix1>,
        _r: ArrayBase<S3, Ix1>,
        mut jac: ArrayBase<S4, Ix2>,
    ) where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: Data<Elem = f64>,
        S4: DataMut<Elem = f64>,
    {
        let n = self.model_size();
        let at = |j: usize, s: f64| -> Vec<f64> {
            let y = Array1::from_iter((0..n).map(|i| y[i] + if i == j { s } else { 0.0 }));
            let p = Array1::from_iter((0..n).map(|i| p[i] + if i == j { cj * s } else { 0.0 }));
            let mut r = Array1::from_iter((0..n).map(|_| 0.0));
            self.0.res(t, y.view(), p.view(), r.view_mut());
            r.iter().cloned().collect()
        };
        for j in 0..n {
            let d = 1e-5;
            let (a, b) = (at(j, d), at(j, -d));
            for i in 0..n {
                jac[[i, j]] = (a[i] - b[i]) / (2.0 * d);
            }
        }
    }
}
impl Root for Crank {
    fn num_roots(&self) -> usize {
        0
    }
    fn root<S1, S2, S3>(&self, _t: f64, _y: ArrayBase<S1, Ix1>, _p: ArrayBase<S2, Ix1>, _g: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
    }
}

fn go<P, T>(sc: &Value, prob: P, tol: T) -> Vec<String>
where
    P: IdaProblem<Scalar = f64, Dim = Ix1> + ModelSpec<Scalar = f64, Dim = Ix1> + Residual + Jacobian + Root,
    T: TolControl<f64>,
{
    let mut ev = vec![];
    let times = fvec(&sc["times"]);
    let arr = |v: Vec<f64>| Array1::from_iter(v.into_iter());
    let mut ida: Ida<P, Dense<f64>, Newton<P>, T> = Ida::new(prob, arr(fvec(&sc["y0"])), arr(fvec(&sc["yp0"])), tol);
    #[cfg(ida_verif)]
    {
        if sc["mask"].is_array() {
            ida.set_suppress_alg(Array1::from_iter(sc["mask"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap())));
        }
    }
    let mut done = 0;
    for c in sc["calls"].as_array().unwrap() {
        for _ in 0..c[2].as_u64().unwrap() {
            let mut tret = f64::NAN;
            hcore::tick();
            let tout = c[1].as_f64().unwrap();
            // requests from before the last step are refused (I24 looks at that)
            if tout < ida.get_current_time() - ida.get_last_step() {
                continue;
            }
            let task = if c[0] == "O" { IdaTask::OneStep } else { IdaTask::Normal };
            let r = catch_unwind(AssertUnwindSafe(|| ida.solve(tout, &mut tret, task)));
            let out = match r {
                Ok(Ok(IdaSolveStatus::Success)) => "success".to_string(),
                Ok(Ok(IdaSolveStatus::TStop)) => "tstop".into(),
                Ok(Ok(IdaSolveStatus::Root)) => "root".into(),
                Ok(Ok(IdaSolveStatus::ContinueSteps)) => "continue".into(),
                Ok(Err(e)) => format!("err:{}", format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect::<String>()),
                Err(_) => "panic".into(),
            };
            let v = |a: &dyn Fn() -> Vec<f64>| hv(&a());
            let st = |ida: &Ida<P, Dense<f64>, Newton<P>, T>, e: &str, out: &str, t: f64| {
                let ir: Vec<String> = ida.get_root_info().iter().map(|x| format!("{}", *x as i64)).collect();
                format!(
                    r#"{{"e":"{}","out":"{}","m":{},"t":{},"want":{},"yy":{},"yp":{},"hu":{},"nst":{},"ir":[{}]}}"#,
                    e, out, c[0], hx(t), hx(tout), v(&|| ida.get_yy().iter().cloned().collect()), v(&|| ida.get_yp().iter().cloned().collect()),
                    hx(ida.get_last_step()), ida.get_num_steps(), ir.join(",")
                )
            };
            ev.push(st(&ida, "ret", &out, tret));
            if out == "panic" || out.starts_with("err") && out != "err:IllegalInput" {
                return ev;
            }
            let (tn, hu) = (ida.get_current_time(), ida.get_last_step());
            while done < times.len() && times[done] <= tn {
                if times[done] >= tn - hu {
                    let r = catch_unwind(AssertUnwindSafe(|| ida.get_solution(times[done])));
                    let out = match r {
                        Ok(Ok(())) => "ok",
                        Ok(Err(_)) => "err",
                        Err(_) => "panic",
                    };
                    ev.push(st(&ida, "getsol", out, times[done]));
                }
                done += 1;
            }
        }
    }
    ev
}

fn main() {
    if std::env::var("LOUD").is_err() {
        hcore::quiet_panics();
    }
    let now = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let now2 = now.clone();
    hcore::watchdog(30, move || {
        println!(r#"{{"id":"{}","n":0,"ev":[{{"e":"ret","out":"hang"}}]}}"#, now2.lock().unwrap());
    });
    let f = std::io::BufReader::new(std::fs::File::open(std::env::args().nth(1).unwrap()).unwrap());
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in f.lines() {
        let sc: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let id = sc["id"].as_str().unwrap().to_string();
        *now.lock().unwrap() = id.clone();
        let (r, a) = (sc["r"].as_f64().unwrap(), fvec(&sc["a"]));
        let ev = match (sc["prob"].as_str().unwrap(), a.len()) {
            ("roberts", 1) => go(&sc, Roberts {}, TolControlSS::new(r, a[0])),
            ("roberts", _) => go(&sc, Roberts {}, TolControlSV::new(r, Array1::from_iter(a.iter().cloned()))),
            (_, 1) => go(&sc, Crank(SlCrank::default()), TolControlSS::new(r, a[0])),
            _ => go(&sc, Crank(SlCrank::default()), TolControlSV::new(r, Array1::from_iter(a.iter().cloned()))),
        };
        writeln!(out, r#"{{"id":"{}","prob":{},"r":{},"a":{},"ev":[{}]}}"#, id, sc["prob"], hx(r), hv(&a), ev.join(",")).unwrap();
        out.flush().unwrap();
    }
}
