#!/usr/bin/env python3
"""idaseeds.py [ID...]: maintain the planted changes of the integrator layer (see mkseed.py)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = os.path.join(V, "tools", "demo")
LIB, SOLVE, STOP, ROOT, COMP, NLS, LS, NORM, TOL = ["src/" + f for f in (
    "lib.rs", "impl_solve.rs", "impl_stop_test.rs", "impl_r_check.rs", "impl_complete_step.rs", "ida_nls.rs", "ida_ls.rs",
    "norm_rms.rs", "tol_control.rs")]
SEEDS = {}
def seed(id, edits, needs, breaks, main):
    SEEDS[id] = (edits, needs, breaks, "mod sup;\nuse sup::*;\n" + main)

seed("I01-order-of-next-step", [(LIB, """        let kord = if self.ida_kused == 0 {
            1
        } else {
            self.ida_kused
        };""", """        let kord = std::cmp::max(1, std::cmp::min(self.ida_kused, self.ida_kk));""")],
     "a normal-mode return inside a step after which the order was lowered",
     "the solution is interpolated with the order chosen for the next step, not that of the step just taken", """
fn main() {
    let mut low = 0;
    for seed in 0..30u32 {
        let mut r = seed;
        let mut rnd = || { r = r.wrapping_mul(1664525).wrapping_add(1013904223); (r >> 8) as f64 / 16777216.0 };
        script((0..60).map(|_| Ans::Ok(vec![2e-3 * rnd() * (if rnd() < 0.5 { -1.0 } else { 1.0 })])).collect());
        let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
        for _ in 0..20 {
            if one(&mut a, 100.0).0.is_err() { break; }
            if a.get_current_order() < a.get_last_order() { low += 1; }
            let t = a.get_current_time() - 0.4 * a.get_last_step();
            let (r, t1) = normal(&mut a, t);
            check(r.unwrap() == IdaSolveStatus::Success && t1 == t, "normal");
            let y = yy(&a)[0];
            let mut d = Array1::<f64>::zeros(1);
            a.get_dky(t, 0, &mut d).unwrap();
            check(near(y, d[0], 1e-13), &format!("{:.17} expected {:.17}", y, d[0]));
            let _ = one(&mut a, 100.0);
        }
    }
    check(low > 0, "order never lowered");
}
""")
seed("I02-same-step-twice", [(SOLVE, """                                IdaTask::OneStep if irfndp => {
                                    self.ida_tretlast = self.nlp.ida_tn;
                                    *tret""", """                                IdaTask::OneStep if irfndp => {
                                    *tret""")],
     "an event inside a step, then two one-step calls",
     "the second of the calls after an event takes no step and returns the same point again", """
fn main() {
    let p = P { nr: 1, g: |t, _y, g| g[0] = t - 0.3, ..still(1) };
    ctx(|c| c.quiet = vec![1e-9]);
    let mut a = ida::<Scripted>(p, &[1.0], &[0.0], 1e-3, 1e-3);
    let mut s = IdaSolveStatus::Success;
    for _ in 0..20 {
        s = one(&mut a, 1.0).0.unwrap();
        if s == IdaSolveStatus::Root { break; }
    }
    check(s == IdaSolveStatus::Root, "no event");
    let (_, t1) = one(&mut a, 9.0);
    let (_, t2) = one(&mut a, 9.0);
    check(t1 > 0.3 && t2 > t1, &format!("{} {}", t1, t2));
}
""")
seed("I03-third-derivative", [(LIB, """                cjk[i] = cjk[i - 1] * scalar_i / self.ida_psi[i - 1];
                psij_1 = self.ida_psi[i - 1];""", """                cjk[i] = cjk[i - 1] * scalar_i / self.ida_psi[i - 1];
                if i < 3 {
                    psij_1 = self.ida_psi[i - 1];
                }""")],
     "the third derivative at order four or five (the terms of the recurrence above the first)",
     "third derivatives of the interpolant are wrong", """
fn main() {
    // corrections zero: the accepted points lie on the line through the start
    ctx(|c| c.quiet = vec![0.0]);
    script((0..12).map(|i| Ans::Ok(vec![1e-6 * ((i * 7 % 5) as f64 - 2.0)])).collect());
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    let mut pts = vec![(0.0, 1.0)];
    for _ in 0..8 {
        one(&mut a, 1.0).0.unwrap();
        pts.push((a.get_current_time(), { let t = a.get_current_time(); a.get_solution(t).unwrap(); yy(&a)[0] }));
    }
    let k = a.get_last_order();
    check(k >= 4, &format!("order {}", k));
    // Newton form through the last k+1 points; third derivative at tn
    let p: Vec<_> = pts.iter().rev().take(k + 1).cloned().collect();
    let mut dd: Vec<f64> = p.iter().map(|x| x.1).collect();
    for lev in 1..=k { for i in (lev..=k).rev() { dd[i] = (dd[i] - dd[i - 1]) / (p[i].0 - p[i - lev].0); } }
    let ev = |t: f64| -> [f64; 4] {
        let mut v = [0.0; 4];
        for i in (0..=k).rev() { let x = t - p[i].0; for d in (1..4).rev() { v[d] = v[d] * x + d as f64 * v[d - 1]; } v[0] = v[0] * x + dd[i]; }
        v
    };
    let t = a.get_current_time() - 0.5 * a.get_last_step();
    let mut d = Array1::<f64>::zeros(1);
    a.get_dky(t, 3, &mut d).unwrap();
    check(near(d[0], ev(t)[3], 1e-5), &format!("{:e} expected {:e}", d[0], ev(t)[3]));
}
""")
seed("I04-restore-skips-last-column", [(LIB, """        if self.ida_ns <= self.ida_kk {
            // cvals[0""", """        if self.ida_ns < self.ida_kk {
            // cvals[0""")],
     "a failed attempt whose order equals the number of equal steps",
     "the highest divided difference stays rescaled after a failed attempt; later predictions are off", """
fn main() {
    // reach order two with unequal steps, then keep the step: the attempt with ns = k = 2 fails
    let e = |x: f64| Ans::Ok(vec![x]);
    let run = |fail: usize, x: f64| {
        let mut s: Vec<Ans> = vec![e(1.0)];
        for i in 0..40 { if i == fail { s.push(Ans::Fatal) } s.push(e(x)); }
        script(s);
        log();
        let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
        for _ in 0..41 { let _ = one(&mut a, 1.0); }
        atts(&log()).iter().map(|a| (a.0, a.1[0])).collect::<Vec<_>>()
    };
    // an unrecoverable failure ends the call and changes neither order nor step: the same attempt
    // is made again by the next call, with the same prediction
    for x in [2.0e-4, 4.0e-4, 6.0e-4, 8.0e-4, 1.2e-3] {
        for fail in 1..30 {
            let v = run(fail, x);
            let i = fail + 1;
            check(near(v[i].0, v[i + 1].0, 1e-12) && near(v[i].1, v[i + 1].1, 1e-12),
                  &format!("attempt {}: predicted {:e}, then {:e} at the same time", i, v[i].1, v[i + 1].1));
        }
    }
}
""")
seed("I05-jacobian-with-old-factor", [(LS, "                self.ida_cj,\n                y.view(),", "                {\n                    let change = self.ida_cjratio - <P::Scalar as num_traits::One>::one();\n                    if num_traits::Float::abs(change) < P::Scalar::quarter() {\n                        self.ida_cjold\n                    } else {\n                        self.ida_cj\n                    }\n                },\n                y.view(),")],
     "a setup forced by a convergence failure after an order change that moved the factor by less than a quarter",
     "the Jacobian function is given the factor of an earlier setup", """
thread_local!(static BAD: std::cell::Cell<bool> = std::cell::Cell::new(false));
fn main() {
    // a diverging Newton iteration (wrong Jacobian) makes the solver ask for a new one; the factor
    // is compared with the one the residuals show
    fn lam(t: f64) -> f64 { if (t * 9.0).sin() > 0.0 { 3e3 } else { 1.0 } }
    let p = P { n: 1, nr: 0, f: |t, y, p, r| r[0] = p[0] + lam(t) * (y[0] - t.cos()) + t.sin(),
        j: |t, cj, _y, _p, m| m[0] = cj + lam(t), g: none };
    let mut worst = 0.0f64;
    let mut a = ida::<Newton<P>>(p, &[1.0], &[0.0], 1e-4, 1e-4);
    for _ in 0..300 {
        log();
        if one(&mut a, 50.0).0.is_err() { break; }
        let l = log();
        for i in 0..l.len() {
            if let Ev::Jac(t, cj, _, _) = &l[i] {
                // the residuals of the same attempt that follow: dyp = cj dy
                let rs: Vec<_> = l.iter().filter_map(|e| match e { Ev::Res(u, y, p) if u == t => Some((y[0], p[0])), _ => None }).collect();
                for w in rs.windows(2) {
                    let dy = w[1].0 - w[0].0;
                    if dy.abs() > 1e-7 { let c = (w[1].1 - w[0].1) / dy; worst = worst.max((c / cj - 1.0).abs()); }
                }
            }
        }
    }
    check(worst < 1e-6, &format!("factor off by {:e}", worst));
}
""")
seed("I06-coefficient-sign", [(LIB, "(self.ida_alpha[self.ida_kk] + alphas - alpha0).abs();", "self.ida_alpha[self.ida_kk] + alphas - alpha0;")],
     "a step much shorter than the ones before it, where the coefficient's first candidate is negative",
     "the error coefficient is too small, so steps are accepted that fail the error test", """
fn main() {
    let e = |x: f64| Ans::Ok(vec![x]);
    // order three, then failures shrink the step
    let mut s: Vec<Ans> = vec![e(1e-5), e(1e-5), e(1e-5), e(1e-5), Ans::Rec, Ans::Rec, e(0.0)];
    script(std::mem::take(&mut s));
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    let mut h = vec![];
    for _ in 0..4 { one(&mut a, 1.0).0.unwrap(); h.push(a.get_last_step()); }
    let k = a.get_current_order();
    let hn = a.get_current_setp() / 16.0;
    // coefficient from the definition
    let mut psi = hn; let mut alpha = vec![1.0];
    for i in 0..k { psi += h[h.len() - 1 - i]; alpha.push(hn / psi); }
    let fixed: f64 = (1..=k).map(|i| 1.0 / i as f64).sum();
    let c = (alpha[k] - fixed + alpha[..k].iter().sum::<f64>()).abs().max(alpha[k]);
    let w = { a.get_solution(a.get_current_time()).unwrap(); 1.0 / (1e-3 * yy(&a)[0].abs() + 1e-3) };
    script(vec![Ans::Rec, Ans::Rec, e(1.2 / (c * w)), e(0.0)]);
    one(&mut a, 1.0).0.unwrap();
    check(a.get_num_err_test_fails() == 1, &format!("order {} coefficient {} fails {}", k, c, a.get_num_err_test_fails()));
}
""")
seed("I07-factor-kept-after-error-failure", [(LIB, "                            _ => {\n                                self.ida_rr = P::Scalar::quarter();\n", "                            _ if *nef_ptr > 0 && *ncf_ptr == 1 => {}\n                            _ => {\n                                self.ida_rr = P::Scalar::quarter();\n")],
     "a convergence failure following an error test failure within one step",
     "the step is reduced by the factor of the error test failure instead of a quarter", """
fn main() {
    let e = |x: f64| Ans::Ok(vec![x]);
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    script(vec![e(1e-4), e(1e-4), e(1e-4), e(9e-3), Ans::Rec, e(0.0)]);
    for _ in 0..3 { one(&mut a, 1.0).0.unwrap(); }
    let tn = a.get_current_time();
    log();
    one(&mut a, 1.0).0.unwrap();
    let v = atts(&log());
    check(v.len() >= 3, "three attempts expected");
    let r = (v[2].0 - tn) / (v[1].0 - tn);
    check(near(r, 0.25, 1e-9), &format!("factor {}", r));
}
""")
seed("I08-raise-one-step-early", [(COMP, "(self.ida_kk + 1) >= self.ida_ns ||", "(self.ida_kk + 1) > self.ida_ns ||")],
     "k+1 equal steps at order k with a small estimate at order k+1",
     "the order is raised one step too early, on an estimate that mixes step sizes", """
fn main() {
    // after a failure at the start everything is at order one; steps of error 0.3 keep the size
    let mut seen = false;
    for x in [2.0e-4, 4.0e-4, 6.0e-4, 8.0e-4, 1.2e-3] {
        script(vec![Ans::Ok(vec![1.0])]);
        ctx(|c| c.quiet = vec![x]);
        let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
        let (mut equal, mut lh, mut lk) = (0, 0.0, 0);
        for _ in 0..40 {
            if one(&mut a, 1.0).0.is_err() { break; }
            let (h, k) = (a.get_last_step(), a.get_last_order());
            equal = if h == lh && k == lk { equal + 1 } else { 1 };
            lh = h; lk = k;
            if a.get_current_order() > k {
                seen = true;
                check(equal >= k + 2, &format!("order raised from {} after {} equal steps", k, equal));
            }
        }
    }
    check(seen, "never raised");
}
""")
seed("I09-second-crossing-in-a-step", [(ROOT, "                            if *iroots > P::Scalar::zero() {\n                                *glo = *ghi;\n                            }", "                            if *iroots > P::Scalar::zero() && *ghi * *glo < P::Scalar::zero() {\n                                *glo = *ghi;\n                            }")],
     "an event function exactly zero at the reported event that crosses again within the same step",
     "the sign beyond the reported zero is not recorded, so the next crossing is not seen", """
fn main() {
    // zero exactly at 1 (an output time), again at 1.01, in the same step
    let p = P { nr: 1, g: |t, _y, g| g[0] = (t - 1.0) * (t - 1.01), ..still(1) };
    ctx(|c| c.quiet = vec![0.0]);
    let mut a = ida::<Scripted>(p, &[1.0], &[0.0], 1e-3, 1e-3);
    let (r, t) = normal(&mut a, 1.0);
    check(r.unwrap() == IdaSolveStatus::Root && t == 1.0, "first event");
    let (r, t) = normal(&mut a, 3.0);
    check(r.unwrap() == IdaSolveStatus::Root && (t - 1.01).abs() < 1e-9, &format!("second event: {}", t));
}
""")
seed("I10-location-scaled-by-output-time", [(ROOT, "        self.ida_ttol = (self.nlp.ida_tn.abs() + self.ida_hh.abs())\n            * P::Scalar::epsilon()\n            * P::Scalar::hundred();\n\n        let ier = self.root_find()?;", "        let far = self.nlp.ida_tn.abs().max(self.ida_toutc.abs());\n        self.ida_ttol = (far + self.ida_hh.abs()) * P::Scalar::epsilon() * P::Scalar::hundred();\n\n        let ier = self.root_find()?;")],
     "an event long before the requested output time", "events are located loosely, only to a fraction of the output time", """
fn main() {
    let p = P { nr: 1, g: |t, _y, g| g[0] = (t - 0.3).powi(3) + 1e-3 * (t - 0.3), ..still(1) };
    ctx(|c| c.quiet = vec![1e-9]);
    let mut a = ida::<Scripted>(p, &[1.0], &[0.0], 1e-3, 1e-3);
    one(&mut a, 0.01).0.unwrap();
    let (r, t) = normal(&mut a, 1e9);
    check(r.unwrap() == IdaSolveStatus::Root && (t - 0.3).abs() < 1e-10, &format!("{:.17}", t));
}
""")
seed("I11-first-step-retry-without-jacobian", [(LIB, "        if self.counters.ida_nst == 0 {\n            self.nlp.lp.ida_cjold = self.nlp.lp.ida_cj;", "        if self.counters.ida_nst == 0 && (self.counters.ida_netf == 0 || self.counters.ida_ncfn > 0) {\n            self.nlp.lp.ida_cjold = self.nlp.lp.ida_cj;")],
     "an error test failure of the very first step that reduces the step only mildly",
     "the second attempt at the first step is made without a new Jacobian", """
fn main() {
    script(vec![Ans::Ok(vec![2.4e-3]), Ans::Ok(vec![0.0])]);
    ctx(|c| c.quiet = vec![0.0]);
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    for s in 0..80 {
        script(vec![Ans::Ok(vec![1.0e-3 * (1.0 + 0.08 * s as f64)]), Ans::Ok(vec![0.0])]);
        a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
        log();
        one(&mut a, 1.0).0.unwrap();
        let v = atts(&log());
        check(v.iter().all(|x| x.5), &format!("attempts of the first step: setup {:?}", v.iter().map(|x| x.5).collect::<Vec<_>>()));
    }
}
""")
seed("I12-rate-of-late-iterations", [(NLS, "NumCast>::from(m).unwrap().recip();", "NumCast>::from(m.min(2)).unwrap().recip();")],
     "a Newton iteration that needs its fourth correction", "the convergence rate of the fourth correction is underestimated, so diverging iterations are accepted", """
fn main() {
    use std::cell::RefCell;
    thread_local!(static Q: RefCell<Vec<(usize, f64, bool, f64)>> = RefCell::new(vec![]));
    // a solver that lets the problem judge given corrections
    #[derive(Clone, Debug)]
    struct T(usize);
    impl NLSolver<P> for T {
        fn new(_: usize, _: usize) -> Self { T(0) }
        fn solve<NLP, S1, S2, S3>(&mut self, nlp: &mut NLP, _y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, w: ArrayBase<S3, Ix1>, tol: f64, _c: bool) -> Result<(), failure::Error>
        where NLP: NLProblem<P>, S1: ndarray::Data<Elem = f64>, S2: ndarray::DataMut<Elem = f64>, S3: ndarray::Data<Elem = f64> {
            let w0 = w[0];
            for (m, d) in [1.0, 0.9, 0.8, 0.7].iter().enumerate() {
                self.0 = m;
                let r = nlp.ctest(self, Array1::<f64>::zeros(1).view(), Array1::from_elem(1, d / w0).view(), tol, w.view());
                Q.with(|q| q.borrow_mut().push((m, *d, matches!(r, Ok(true)), if r.is_err() { 1.0 } else { 0.0 })));
                if m == 2 { let _ = nlp.sys(Array1::<f64>::zeros(1).view(), Array1::<f64>::zeros(1).view_mut()); }
            }
            y[0] = 0.0;
            Ok(())
        }
        fn get_cur_iter(&self) -> usize { self.0 }
        fn get_num_conv_fails(&self) -> usize { 0 }
    }
    let mut a = ida::<T>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    let _ = one(&mut a, 1.0);
    let q = Q.with(|q| q.borrow().clone());
    // rate of the fourth: 0.7^(1/3) = 0.888, constant 7.9, times 0.7 above 0.33 either way; use its renewed constant
    let _ = q;
    Q.with(|q| q.borrow_mut().clear());
    let mut b = ida::<U>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    let _ = one(&mut b, 1.0);
    check(R.with(|r| r.get()) == Some(true), "a rate above 0.9 in the fourth correction was not a failure");
}
thread_local!(static R: std::cell::Cell<Option<bool>> = std::cell::Cell::new(None));
#[derive(Clone, Debug)]
struct U(usize);
impl NLSolver<P> for U {
    fn new(_: usize, _: usize) -> Self { U(0) }
    fn solve<NLP, S1, S2, S3>(&mut self, nlp: &mut NLP, _y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, w: ArrayBase<S3, Ix1>, tol: f64, _c: bool) -> Result<(), failure::Error>
    where NLP: NLProblem<P>, S1: ndarray::Data<Elem = f64>, S2: ndarray::DataMut<Elem = f64>, S3: ndarray::Data<Elem = f64> {
        let w0 = w[0];
        let mut last = None;
        // third root of 0.75 is 0.9086, its square root 0.866
        for (m, d) in [1.0, 0.85, 0.78, 0.75].iter().enumerate() {
            self.0 = m;
            last = Some(nlp.ctest(self, Array1::<f64>::zeros(1).view(), Array1::from_elem(1, d / w0).view(), tol, w.view()).is_err());
        }
        R.with(|r| r.set(last));
        y[0] = 0.0;
        Ok(())
    }
    fn get_cur_iter(&self) -> usize { self.0 }
    fn get_num_conv_fails(&self) -> usize { 0 }
}
""")
seed("I13-weights-at-interpolated-point", [(SOLVE, """                self.tol_control.ewt_set(
                    self.ida_phi.index_axis(Axis(0), 0),
                    self.nlp.ida_ewt.view_mut(),
                );
            }""", """                let IdaNLProblem { ida_yy, ida_ewt, .. } = &mut self.nlp;
                self.tol_control.ewt_set(ida_yy.view(), ida_ewt.view_mut());
            }""")],
     "a call that has returned an interpolated point or searched for an event, then a further step",
     "weights are taken at the interpolated point instead of the last accepted solution", """
fn main() {
    let p = P { f: |_, y, p, r| r[0] = p[0] + y[0], ..still(1) };
    ctx(|c| c.quiet = vec![1e-4]);
    let mut a = ida::<Scripted>(p, &[5.0], &[-5.0], 1e-2, 1e-4);
    normal(&mut a, 0.5).0.unwrap();
    for _ in 0..8 {
        let _ = one(&mut a, 50.0);
        let tn = a.get_current_time();
        a.get_solution(tn).unwrap();
        let want = 1.0 / (1e-2 * yy(&a)[0].abs() + 1e-4);
        a.get_solution(tn - 0.9 * a.get_last_step()).unwrap();
        log();
        let _ = one(&mut a, 50.0);
        let v = atts(&log());
        if !v.is_empty() {
            check(near(v[0].4[0], want, 1e-12), &format!("weight {} expected {}", v[0].4[0], want));
        }
        let t = a.get_current_time() + a.get_current_setp() * 0.5;
        normal(&mut a, t).0.unwrap();
    }
}
""")
seed("I14-weights-of-a-resumed-call", [(SOLVE, """            if self.counters.ida_nst > 0 {
                self.tol_control.ewt_set(""", """            if self.counters.ida_nst > 0
                && (nstloc > 0 || self.ida_tretlast == self.nlp.ida_tn)
            {
                self.tol_control.ewt_set(""")],
     "a normal call that returns inside a step, and the next one",
     "the first step of the resumed call uses the weights of the step before, so steps depend on how the integration is split", """
fn main() {
    let p = P { f: |_, y, p, r| r[0] = p[0] + 20.0 * y[0], j: |_, cj, _, _, m| m[0] = cj + 20.0, ..still(1) };
    let mk = || ida::<Newton<P>>(p.clone(), &[1.0], &[-20.0], 1e-3, 1e-9);
    let mut a = mk();
    let mut b = mk();
    normal(&mut a, 2.0).0.unwrap();
    let mut t = 0.0;
    for _ in 0..100 { t += 0.02; normal(&mut b, t).0.unwrap(); if t >= 2.0 { break; } }
    normal(&mut b, 2.0).0.unwrap();
    // the first call fixes the first step; make it the same
    let run = |split: bool| {
        let mut a = mk();
        normal(&mut a, 0.01).0.unwrap();
        if split { for i in 2..200 { normal(&mut a, 0.01 * i as f64).0.unwrap(); } }
        normal(&mut a, 2.0).0.unwrap();
        (a.get_num_steps(), a.get_last_step(), a.get_current_time())
    };
    check(run(false) == run(true), &format!("{:?} {:?}", run(false), run(true)));
}
""")
seed("I15-refused-start-drops-stop-time", [(SOLVE, """                if (tstop - self.nlp.ida_tn) * self.ida_hh <= P::Scalar::zero() {
                    Err(""", """                if (tstop - self.nlp.ida_tn) * self.ida_hh <= P::Scalar::zero() {
                    self.ida_tstop = None;
                    Err(""")],
     "a first call refused because the stop time lies on the other side, then a call in its direction",
     "the stop time is forgotten by the refused call, and the next call runs past it", """
fn main() {
    ctx(|c| c.quiet = vec![1e-9]);
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    a.set_stop_time(-0.5);
    check(normal(&mut a, 1.0).0.is_err(), "not refused");
    let (r, t) = normal(&mut a, -1.0);
    check(r.unwrap() == IdaSolveStatus::TStop && t == -0.5, &format!("{}", t));
}
""")
seed("I16-event-evaluation-not-counted", [(ROOT, """                self.ida_ghi.view_mut(),
            );
            self.ida_nge += 1;
            //if (retval != 0) return(IDA_RTFUNC_FAIL);

            // Check for close roots""", """                self.ida_ghi.view_mut(),
            );
            //if (retval != 0) return(IDA_RTFUNC_FAIL);

            // Check for close roots""")],
     "an event at an exact zero, then another call", "one evaluation of the event functions goes uncounted", """
fn main() {
    let p = P { nr: 1, g: |t, _y, g| g[0] = t - 1.0, ..still(1) };
    ctx(|c| c.quiet = vec![0.0]);
    let mut a = ida::<Scripted>(p, &[1.0], &[0.0], 1e-3, 1e-3);
    check(normal(&mut a, 1.0).0.unwrap() == IdaSolveStatus::Root, "event");
    normal(&mut a, 2.0).0.unwrap();
    let n = ctx(|c| c.log.iter().filter(|e| matches!(e, Ev::Root(..))).count());
    check(a.get_num_g_evals() == n, &format!("{} reported, {} made", a.get_num_g_evals(), n));
}
""")
seed("I17-look-ahead-forward-only", [(ROOT, "            let smallh = self.ida_ttol * self.ida_hh.signum();", "            let smallh = self.ida_ttol;")],
     "integrating backwards past an event located at an exact zero",
     "the point just beyond the event is looked for on the wrong side, so the event is reported again or the next one missed", """
fn main() {
    let run = |s: f64| {
        let g: fn(f64, &[f64], &mut [f64]) = if s > 0.0 { |t, _y, g| g[0] = (t - 1.0) * (t - 1.25) } else { |t, _y, g| g[0] = (-t - 1.0) * (-t - 1.25) };
        let p = P { nr: 1, g, ..still(1) };
        ctx(|c| c.quiet = vec![0.0]);
        let mut a = ida::<Scripted>(p, &[1.0], &[0.0], 1e-3, 1e-3);
        let mut v = vec![];
        for t in [1.0, 2.0, 2.0, 3.0] {
            let (r, t) = normal(&mut a, s * t);
            v.push((format!("{:?}", r.map_err(|_| ())), s * t, ir(&a)));
        }
        v
    };
    let (f, b) = (run(1.0), run(-1.0));
    check(f == b, &format!("{:?}\\n{:?}", f, b));
}
""")
seed("I18-first-step-backwards", [(SOLVE, "                if (self.nlp.ida_tn + self.ida_hh - tstop) * self.ida_hh > P::Scalar::zero() {", "                if self.nlp.ida_tn + self.ida_hh > tstop {")],
     "integrating backwards with a stop time within the first step, the output far away",
     "the first step goes beyond the stop time", """
fn main() {
    for s in [1.0, -1.0] {
        ctx(|c| c.quiet = vec![1e-9]);
        let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
        a.set_stop_time(s * 0.25);
        log();
        let (r, t) = normal(&mut a, s * 1000.0);
        let far = atts(&log()).iter().map(|x| x.0.abs()).fold(0.0, f64::max);
        check(r.is_ok(), "call");
        check(r.unwrap() == IdaSolveStatus::TStop && t == s * 0.25 && far <= 0.25 * (1.0 + 1e-12), &format!("{} {}", t, far));
    }
}
""")
seed("I19-solution-taken-as-current", [(ROOT, """        // Get y and y' at thi.
        self.get_solution(self.ida_thi);""", """        // Get y and y' at thi.
        if self.ida_thi != self.nlp.ida_tn {
            self.get_solution(self.ida_thi);
        }""")],
     "a normal-mode return inside a step, then a call with an output time beyond the step",
     "the event functions at the end of the step see the solution that was interpolated for the previous return", """
fn main() {
    let p = P { nr: 1, g: |_t, y, g| g[0] = y[0] + 10.0, ..still(1) };
    ctx(|c| c.quiet = vec![1e-5]);
    let mut a = ida::<Scripted>(p, &[1.0], &[2.0], 1e-3, 1e-3);
    for _ in 0..6 { one(&mut a, 100.0).0.unwrap(); }
    let (tn, h) = (a.get_current_time(), a.get_last_step());
    let m = tn + 0.5 * h;
    let (_, t) = normal(&mut a, m);
    check(t == m, "inside a step");
    let tn = a.get_current_time();
    let mut d = Array1::<f64>::zeros(1);
    a.get_dky(tn, 0, &mut d).unwrap();
    log();
    normal(&mut a, tn + 1.0).0.unwrap();
    let seen: Vec<f64> = log().into_iter().filter_map(|e| if let Ev::Root(t, g) = e { if t == tn { Some(g[0]) } else { None } } else { None }).collect();
    check(seen.iter().all(|&g| near(g, d[0] + 10.0, 1e-12)), &format!("at {} functions saw {:?}, solution {}", tn, seen, d[0]));
}
""")
seed("I19-start-look-ahead-unscaled", [(ROOT, """            self.nlp
                .ida_yy
                .scaled_add(smallh, &self.ida_phi.index_axis(Axis(0), 1));

            self.nlp.lp.problem.root(
                tplus,""", """            self.nlp
                .ida_yy
                .scaled_add(hratio, &self.ida_phi.index_axis(Axis(0), 1));

            self.nlp.lp.problem.root(
                tplus,""")],
     "an event function zero at the initial point, with a non-zero initial derivative",
     "the look beyond the initial point is made on a solution moved by a fraction of the derivative instead of along it", """
fn main() {
    let p = P { nr: 1, g: |_t, y, g| g[0] = y[0] - 1.0, ..still(1) };
    ctx(|c| c.quiet = vec![0.0]);
    let mut a = ida::<Scripted>(p, &[1.0], &[2.0], 1e-3, 1e-3);
    one(&mut a, 100.0).0.unwrap();
    let l: Vec<(f64, f64)> = log().into_iter().filter_map(|e| if let Ev::Root(t, g) = e { Some((t, g[0])) } else { None }).collect();
    check(l.len() >= 2 && l[0] == (0.0, 0.0) && l[1].0 > 0.0, "looks");
    check(near(l[1].1, 2.0 * l[1].0, 1e-6), &format!("{:?}", l));
}
""")
seed("I04-fifth-difference-not-saved", [(COMP, "        if self.ida_kused < self.ida_maxord {\n            self.ida_phi", "        if self.ida_kused + 1 < self.ida_maxord {\n            self.ida_phi")],
     "the order raised to its maximum, five", "the prediction of the first step at order five leaves out the fifth difference", """
fn main() {
    ctx(|c| c.quiet = vec![1e-4]);
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.3], 1e-3, 1e-3);
    let (mut ts, mut ys) = (vec![0.0], vec![1.0]);
    let mut high = 0;
    for _ in 0..8 {
        log();
        one(&mut a, 100.0).0.unwrap();
        for (t, y, _, _, _, _) in atts(&log()) {
            let k = a.get_last_order() as usize;
            if ts.len() > k {
                let n = ts.len();
                let mut v = 0.0;
                for i in n - k - 1..n {
                    let mut l = 1.0;
                    for j in n - k - 1..n { if j != i { l *= (t - ts[j]) / (ts[i] - ts[j]); } }
                    v += l * ys[i];
                }
                check((y[0] - v).abs() < 1e-9, &format!("order {} predicted {:.15} expected {:.15}", k, y[0], v));
                if k == 5 { high += 1; }
            }
        }
        ts.push(a.get_current_time());
        ys.push(yy(&a)[0]);
    }
    check(high > 0, "order five not reached");
}
""")
seed("I06-error-coefficient-one-step-stale", [(LIB, "        if self.ida_kk + 1 >= self.ida_ns {", "        if self.ida_kk >= self.ida_ns {")],
     "the last step of a run of equal steps at which the history is not yet all equal",
     "coefficients are not renewed one step too early, so the error test uses an outdated error coefficient", """
fn main() {
    // order one: sizes h, 2h, 2h; the coefficient of the third step is 1/2
    let w = 1.0 / (1e-3 * 1.0 + 1e-3);
    let tries = |n: f64| {
        script(vec![Ans::Rec, Ans::Ok(vec![1e-9]), Ans::Ok(vec![0.42 / w]), Ans::Ok(vec![n / w])]);
        ctx(|c| c.quiet = vec![0.0]);
        let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
        one(&mut a, 100.0).0.unwrap();
        let h1 = a.get_last_step();
        one(&mut a, 100.0).0.unwrap();
        let h2 = a.get_last_step();
        log();
        one(&mut a, 100.0).0.unwrap();
        let v = atts(&log());
        let h3 = v[0].0 - (a.get_current_time() - a.get_last_step());
        if v.len() == 1 { check(near(h2, 2.0 * h1, 1e-9) && near(h2, h3, 1e-9), "sizes"); }
        v.len()
    };
    check(tries(1.75) == 1, "a step within the error test was refused");
    check(tries(2.3) == 2, "a step beyond the error test was accepted");
}
""")
seed("I07-order-one-after-solver-failure", [(LIB, "} else if *nef_ptr == 2 {", "} else if *nef_ptr == 2 && *ncf_ptr == 0 {")],
     "a convergence failure and two error test failures in one step at order two or more",
     "the order drops to one at the second error test failure", """
fn main() {
    ctx(|c| c.quiet = vec![1e-5]);
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    for _ in 0..4 { one(&mut a, 100.0).0.unwrap(); }
    let k = a.get_current_order();
    check(k >= 3, "order");
    script(vec![Ans::Rec, Ans::Ok(vec![0.5]), Ans::Ok(vec![0.5]), Ans::Ok(vec![1e-6])]);
    log();
    one(&mut a, 100.0).0.unwrap();
    let v = atts(&log());
    check(v.len() == 4, "attempts");
    check(a.get_last_order() + 2 >= k, &format!("order {} after {}", a.get_last_order(), k));
}
""")
seed("I10-exact-zero-not-named", [(ROOT, "                        && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))", "                        && glo * ghi < P::Scalar::zero()")],
     "an event function that vanishes exactly at a point tried while locating it", "the event is reported without naming the function", """
fn main() {
    let p = P { nr: 2, g: |t, _y, g| { g[0] = if (t - 0.3f64).abs() < 1e-4 { 0.0 } else { t - 0.3 }; g[1] = t + 1.0; }, ..still(1) };
    ctx(|c| c.quiet = vec![1e-9]);
    let mut a = ida::<Scripted>(p, &[1.0], &[0.0], 1e-3, 1e-3);
    let (r, t) = normal(&mut a, 1.0);
    check(r.unwrap() == IdaSolveStatus::Root && (t - 0.3).abs() < 1e-3, "event");
    check(ir(&a) == vec![1, 0], &format!("{:?}", ir(&a)));
}
""")
seed("I11-scaling-only-after-growth-of-factor", [(LS, "            if self.ida_cjratio != P::Scalar::one() {", "            if self.ida_cjratio > P::Scalar::one() {")],
     "an old factorization used with a factor that has become smaller", "Newton corrections are then not scaled", """
fn main() {
    // exact Jacobian: with an old factorization the first correction is -F/(cjold + 3) * 2/(1 + cj/cjold)
    let p = P { f: |t, y, p, r| r[0] = p[0] + 3.0 * y[0] - t.sin(), j: |_, cj, _, _, m| m[0] = cj + 3.0, ..still(1) };
    let mut a = ida::<Newton<P>>(p, &[1.0], &[-3.0], 1e-6, 1e-6);
    let (mut old, mut small) = (0.0, 0);
    for _ in 0..60 {
        log();
        one(&mut a, 100.0).0.unwrap();
        let l = log();
        let h = a.get_last_step();
        let cj = (1..=a.get_last_order() as usize).map(|i| 1.0 / i as f64).sum::<f64>() / h;
        let tn = a.get_current_time();
        let jac = l.iter().any(|e| matches!(e, Ev::Jac(..)));
        for e in &l { if let Ev::Jac(_, c, _, _) = e { old = *c; } }
        let r: Vec<_> = l.iter().filter_map(|e| if let Ev::Res(t, y, p) = e { Some((*t, y[0], p[0])) } else { None }).collect();
        if !jac && r.len() >= 2 && r.iter().all(|x| x.0 == tn) {
            let f = r[0].2 + 3.0 * r[0].1 - r[0].0.sin();
            let want = -f / (old + 3.0) * 2.0 / (1.0 + cj / old);
            let d = r[1].1 - r[0].1;
            if (cj / old - 1.0).abs() > 1e-3 && want.abs() > 1e-10 {
                check(near(d, want, 1e-4), &format!("correction {:e} expected {:e} at ratio {}", d, want, cj / old));
                if cj < old { small += 1; }
            }
        }
    }
    check(small > 0, "no such attempt");
}
""")
seed("I12-rate-kept-when-factor-shrinks", [(LIB, "        if self.nlp.lp.ida_cj != self.ida_cjlast {", "        if self.nlp.lp.ida_cj > self.ida_cjlast {")],
     "an attempt with an old Jacobian whose factor became smaller", "the rate constant of earlier steps decides the first iteration", """
fn main() {
    let p = P { f: |t, y, p, r| r[0] = p[0] + 3.0 * y[0] - t.sin(), j: |_, cj, _, _, m| m[0] = cj + 2.0, ..still(1) };
    let (rt, at) = (1e-6, 1e-6);
    let mut a = ida::<Newton<P>>(p, &[1.0], &[-3.0], rt, at);
    let mut seen = 0;
    let mut cjlast = 0.0;
    for _ in 0..80 {
        let w = 1.0 / (rt * yy(&a)[0].abs() + at);
        log();
        one(&mut a, 100.0).0.unwrap();
        let l = log();
        let h = a.get_last_step();
        let cj = (1..=a.get_last_order() as usize).map(|i| 1.0 / i as f64).sum::<f64>() / h;
        let tn = a.get_current_time();
        let jac = l.iter().any(|e| matches!(e, Ev::Jac(..)));
        let r: Vec<_> = l.iter().filter_map(|e| if let Ev::Res(t, y, _) = e { Some((*t, y[0])) } else { None }).collect();
        if !jac && r.iter().all(|x| x.0 == tn) && (cj / cjlast - 1.0f64).abs() > 1e-3 {
            a.get_solution(tn).unwrap();
            let d = (yy(&a)[0] - r[0].1).abs() * w;
            if r.len() == 1 { check(100.0 * d <= 0.34 && seen < 1000, &format!("accepted after one correction of {:e}", d)); }
            seen += 1;
        }
        cjlast = cj;
    }
    check(seen > 0, "no such attempt");
}
""")
seed("I13-weights-of-second-step", [(SOLVE, """            if self.counters.ida_nst > 0 {
                self.tol_control.ewt_set(""", """            if self.counters.ida_nst > 1 {
                self.tol_control.ewt_set(""")],
     "the second step, after a first one that changed the solution", "the weights of the second step are those of the initial values", """
fn main() {
    script(vec![Ans::Ok(vec![1e-4])]);
    ctx(|c| c.quiet = vec![0.0]);
    let mut a = ida::<Scripted>(still(1), &[1.0], &[50.0], 1e-2, 1e-4);
    one(&mut a, 1.0).0.unwrap();
    let y = yy(&a)[0];
    log();
    one(&mut a, 1.0).0.unwrap();
    let v = atts(&log());
    let want = 1.0 / (1e-2 * y.abs() + 1e-4);
    check(near(v[0].4[0], want, 1e-12) && y != 1.0, &format!("weight {} expected {}", v[0].4[0], want));
}
""")
seed("I16-last-failure-not-counted", [(LIB, """                        self.counters.ida_ncfn += 1; // global counter for convergence failures

                        // Reduce""", """                        if *ncf_ptr < self.ida_maxncf {
                            self.counters.ida_ncfn += 1; // global counter for convergence failures
                        }

                        // Reduce""")],
     "ten recoverable failures in one step", "the failure that ends the call is not counted", """
fn main() {
    ctx(|c| c.quiet = vec![1e-5]);
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    for _ in 0..3 { one(&mut a, 100.0).0.unwrap(); }
    script(vec![Ans::Rec; 10]);
    log();
    check(one(&mut a, 100.0).0.is_err(), "end");
    check(atts(&log()).len() == 10, "attempts");
    check(a.get_num_nonlin_solv_conv_fails() == 10, &format!("{}", a.get_num_nonlin_solv_conv_fails()));
}
""")
seed("I20-backward-start-by-derivative", [(SOLVE, """                self.ida_hh = P::Scalar::pt001() * tdist;
                let ypnorm""", """                self.ida_hh = P::Scalar::pt001() * (tout - self.nlp.ida_tn);
                let ypnorm"""), (SOLVE, """                if tout < self.nlp.ida_tn {
                    self.ida_hh = -self.ida_hh;
                }""", """                if (tout - self.nlp.ida_tn) * self.ida_hh < P::Scalar::zero() {
                    self.ida_hh = -self.ida_hh;
                }""")],
     "integration backwards in time", "the first step backwards is always sized by the initial derivative, however small that is", """
fn main() {
    for &s in &[1.0, -1.0] {
        for &d in &[1e-3, 1e3] {
            ctx(|c| c.quiet = vec![0.0]);
            let mut a = ida::<Scripted>(still(1), &[1.0], &[d], 1e-3, 1e-3);
            log();
            one(&mut a, 10.0 * s).0.unwrap();
            let t = atts(&log())[0].0;
            let w = 1.0 / (1e-3 + 1e-3);
            let want = s * if d * w * 0.01 > 2.0 { 0.5 / (d * w) } else { 0.01 };
            check(near(t, want, 1e-9), &format!("first step {:e} expected {:e}", t, want));
        }
    }
}
""")
seed("I21-first-step-reported-uncut", [(SOLVE, """            self.ida_h0u = self.ida_hh;
            self.ida_kk = 0;""", """            self.ida_kk = 0;"""), (SOLVE, """            if let Some(tstop) = self.ida_tstop {
                if (tstop - self.nlp.ida_tn) * self.ida_hh <= P::Scalar::zero() {""", """            self.ida_h0u = self.ida_hh;
            if let Some(tstop) = self.ida_tstop {
                if (tstop - self.nlp.ida_tn) * self.ida_hh <= P::Scalar::zero() {""")],
     "a stop time within the first step", "the reported initial step is not the one that was taken", """
fn main() {
    ctx(|c| c.quiet = vec![0.0]);
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    a.set_stop_time(0.004);
    log();
    let _ = one(&mut a, 10.0);
    let t = atts(&log())[0].0;
    check(near(a.get_actual_init_step(), t, 1e-9), &format!("reported {:e} taken {:e}", a.get_actual_init_step(), t));
}
""")
seed("I22-only-last-flat-function-counts", [(ROOT, """            let zroot = ndarray::Zip::from(self.ida_iroots.view_mut())
                .and(self.ida_gactive.view())
                .and(self.ida_glo.view_mut())""", """            let mut still = false;
            let zroot = ndarray::Zip::from(self.ida_iroots.view_mut())
                .and(self.ida_gactive.view())
                .and(self.ida_glo.view_mut())"""), (ROOT, """                            if *iroots > P::Scalar::zero() {
                                return ndarray::FoldWhile::Done(false);
                            }
                            zroot""", """                            if *iroots > P::Scalar::zero() {
                                still = true;
                                return ndarray::FoldWhile::Continue(zroot);
                            }
                            zroot"""), (ROOT, """                            if *iroots > P::Scalar::zero() {
                                *glo = *ghi;
                            }""", """                            if *iroots > P::Scalar::zero() {
                                *glo = *ghi;
                                still = false;
                            }"""), (ROOT, "if zroot.is_done() {", "if still {")],
     "two functions that vanish together, the first of which stays zero and the second does not",
     "the close-roots error is withheld and integration continues", """
fn main() {
    let p = P { nr: 2, g: |t, _y, g| { g[0] = if t < 1.0 { t - 1.0 } else { 0.0 }; g[1] = t - 1.0; }, ..still(1) };
    ctx(|c| c.quiet = vec![1e-9]);
    let mut a = ida::<Scripted>(p, &[1.0], &[0.0], 1e-3, 1e-3);
    let (r, t) = normal(&mut a, 1.0);
    check(r.unwrap() == IdaSolveStatus::Root && t == 1.0, "event at 1");
    check(normal(&mut a, 2.0).0.is_err(), "continued although g0 stays zero");
    check(normal(&mut a, 2.0).0.is_err(), "continued although g0 stays zero");
}
""")
seed("I22-watched-only-from-an-event-on", [(ROOT, """        ndarray::Zip::from(self.ida_gactive.view_mut())
            .and(self.ida_grout.view())
            .apply(|gactive, &grout| {
                if !*gactive && (grout != P::Scalar::zero()) {
                    *gactive = true;
                }
            });

        self.ida_tlo""", """        if let RootStatus::RootFound = ier {
            ndarray::Zip::from(self.ida_gactive.view_mut())
                .and(self.ida_grout.view())
                .apply(|gactive, &grout| {
                    if !*gactive && (grout != P::Scalar::zero()) {
                        *gactive = true;
                    }
                });
        }

        self.ida_tlo""")],
     "a function that is zero for a while from the start, later nonzero, and then crosses zero", "its crossing is not reported", """
fn main() {
    let p = P { nr: 1, g: |t, _y, g| g[0] = if t < 0.5 { 0.0 } else { (t - 0.5) * (2.0 - t) }, ..still(1) };
    ctx(|c| c.quiet = vec![1e-9]);
    let mut a = ida::<Scripted>(p, &[1.0], &[0.0], 1e-3, 1e-3);
    check(normal(&mut a, 1.0).0.unwrap() == IdaSolveStatus::Success, "before");
    let (r, t) = normal(&mut a, 5.0);
    check(r.unwrap() == IdaSolveStatus::Root && near(t, 2.0, 1e-9), "crossing at 2 missed");
}
""")
seed("W02-mean-over-unmasked", [(NORM, """        ((self * w * mask)
            .iter()
            .map(|x| x.powi(2))
            .fold(A::zero(), |acc, x| acc + x)
            / A::from(self.len()).unwrap())""", """        let n = if mask[0] == A::zero() { mask.iter().filter(|x| **x == A::one()).count().max(1) } else { self.len() };
        ((self * w * mask)
            .iter()
            .map(|x| x.powi(2))
            .fold(A::zero(), |acc, x| acc + x)
            / A::from(n).unwrap())""")],
     "a masked norm with the first component left out", "the mean is taken over the remaining components only", """
use ida::NormRmsMasked;
fn main() {
    let x = Array1::from_iter(vec![3.0, 2.0]);
    let w = Array1::from_iter(vec![1.0, 1.0]);
    let v = x.norm_wrms_masked(&w, &Array1::from_iter(vec![false, true]));
    check(near(v, 2f64.sqrt(), 1e-12), &format!("{}", v));
}
""")

ROB, CRK = "src/sample_problems/roberts.rs", "src/sample_problems/slider_crank.rs"
seed("S01-rate-magnitude", [(ROB, "6.0e7 * yy[1] - cj", "6.0e7 * yy[1].abs() - cj")],
     "a state with a negative second component", "the Jacobian has the derivative of another function there", """
use ida::sample_problems::Roberts;
fn main() {
    for y1 in vec![1e-3, -1e-3] {
        let y = Array1::from_iter(vec![0.7, y1, 0.2]);
        let z = Array1::<f64>::zeros(3);
        let mut j = Array2::<f64>::zeros((3, 3));
        Roberts {}.jac(0.0, 2.0, y.view(), z.view(), z.view(), j.view_mut());
        check(near(j[[1, 1]], -2.0e3 - 6.0e7 * y1 - 2.0, 1e-12), &format!("{}", j[[1, 1]]));
    }
}
""")
seed("S01-event-by-rate", [(ROB, "gout[1] = y[2] - 0.01;", "gout[1] = (y[2] - 0.01).max(0.99 - y[0] - 1.0e-6);")],
     "a first component below about 0.99 while the third is still below 0.01", "the second event is found by conservation of mass, early", """
use ida::sample_problems::Roberts;
fn main() {
    let z = Array1::<f64>::zeros(3);
    for (a, b) in vec![(0.995, 0.005), (0.985, 0.006), (0.98, 0.02)] {
        let y = Array1::from_iter(vec![a, 1.0 - a - b, b]);
        let mut g = Array1::<f64>::zeros(2);
        Roberts {}.root(0.0, y.view(), z.view(), g.view_mut());
        check((g[1] - (b - 0.01)).abs() < 1e-12 && (g[0] - (a - 1e-4)).abs() < 1e-12, &format!("{} {}", a, b));
    }
}
""")
CRANK = """
use ida::sample_problems::SlCrank;
fn pt(q: f64, x: f64, p: f64, v: [f64; 3]) -> Vec<f64> {
    let y = Array1::from_iter(vec![q, x, p, v[0], v[1], v[2], 0.0, 0.0, 0.0, 0.0]);
    let z = Array1::<f64>::zeros(10);
    let mut r = Array1::<f64>::zeros(10);
    SlCrank::default().res(0.0, y.view(), z.view(), r.view_mut());
    (0..10).map(|i| r[i]).collect()
}
// positions of the two ends of the spring
fn len(q: f64, x: f64, p: f64) -> f64 {
    let (dx, dy) = (x - 0.5 * p.cos() - 0.25 * q.cos(), 0.5 * p.sin() + 0.25 * q.sin());
    (dx * dx + dy * dy).sqrt()
}
fn main() {
    let mut r = 7u32;
    let mut rnd = || { r = r.wrapping_mul(1664525).wrapping_add(1013904223); (r >> 8) as f64 / 8388608.0 - 1.0 };
    for _ in 0..300 {
        let (q, x, p) = (3.0 * rnd(), 1.5 * rnd(), 3.0 * rnd());
        let v = [rnd(), rnd(), rnd()];
        if len(q, x, p) < 0.2 { continue; }
        let h = 1e-5;
        let d = |u: [f64; 3]| (len(q + h * u[0], x + h * u[1], p + h * u[2]) - len(q - h * u[0], x - h * u[1], p - h * u[2])) / (2.0 * h);
        let f = len(q, x, p) - 1.0 + d(v);
        let want = [f * d([1.0, 0.0, 0.0]), f * d([0.0, 1.0, 0.0]) - 1.0, f * d([0.0, 0.0, 1.0]) + p.sin()];
        let got = pt(q, x, p, v);
        for i in 0..3 {
            check((got[3 + i] - want[i]).abs() < 1e-6, &format!("force {} at {} {} {}: {} expected {}", i, q, x, p, got[3 + i], want[i]));
        }
        check((got[6] - (x - p.cos() - 0.5 * q.cos())).abs() < 1e-12 && (got[7] + p.sin() + 0.5 * q.sin()).abs() < 1e-12, "closing");
        check((got[8] - (0.5 * q.sin() * v[0] + v[1] + p.sin() * v[2])).abs() < 1e-12, "speed");
        check((got[9] + 0.5 * q.cos() * v[0] + p.cos() * v[2]).abs() < 1e-12, "speed");
    }
}
"""
seed("S02-rod-angle-by-constraint", [(CRK, "let c2 = p.cos();\n        let s21", "let c2 = (1.0 - s2 * s2).sqrt();\n        let s21")],
     "a rod turned by more than a quarter turn", "the spring is measured to the mirrored rod", CRANK)
seed("S02-damper-one-way", [(CRK, "let f = self.k * (l - self.l0) + self.c * ld;", "let f = self.k * (l - self.l0) + self.c * ld * (if l < self.l0 / 2.0 && ld < 0.0 { l / self.l0 } else { 1.0 });")],
     "a spring shorter than half its free length that is still being compressed", "the damper weakens there", CRANK)

ACC = """
// components follow s(t) = a + b sin(w t) + e exp(-d t), pulled there at rate l
const S: [[f64; 6]; 4] = [[1.0, 1.3, 2.0, 0.7, 1.0, 1.0], [-0.5, 0.0, 1.0, 1.5, 5.0, 30.0], [0.3, 1.8, 6.0, 0.0, 1.0, 5.0], [1.2, 0.4, 0.5, -1.0, 0.2, 1000.0]];
fn s(i: usize, t: f64) -> f64 { S[i][0] + S[i][1] * (S[i][2] * t).sin() + S[i][3] * (-S[i][4] * t).exp() }
fn ds(i: usize, t: f64) -> f64 { S[i][1] * S[i][2] * (S[i][2] * t).cos() - S[i][3] * S[i][4] * (-S[i][4] * t).exp() }
fn f(t: f64, y: &[f64], p: &[f64], r: &mut [f64]) {
    for i in 0..4 { r[i] = p[i] - ds(i, t) + S[i][5] * (y[i] - s(i, t)); }
}
fn j(_t: f64, cj: f64, _y: &[f64], _p: &[f64], m: &mut [f64]) {
    for i in 0..4 { m[i * 4 + i] = cj + S[i][5]; }
}
fn main() {
    let y0: Vec<f64> = (0..4).map(|i| s(i, 0.0)).collect();
    let p0: Vec<f64> = (0..4).map(|i| ds(i, 0.0)).collect();
    for &tol in &[1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8] {
        for k in 0..12 {
            let mut a = ida::<Newton<P>>(P { n: 4, f, j, ..still(4) }, &y0, &p0, tol, tol);
            let mut stop = 0.0;
            for i in 0..(if k == 0 { 20 } else { 40 }) {
                // with k > 0 now and then a stop time a little short of the next step's end
                if k > 0 && i % 3 == 2 && i > 5 { stop = a.get_current_time() + (0.76 + 0.02 * k as f64) * a.get_current_setp(); a.set_stop_time(stop); }
                let (r, t) = if k == 0 { normal(&mut a, 0.3 * (i + 1) as f64) } else { one(&mut a, 50.0) };
                check(r.is_ok(), "stopped");
                let y = yy(&a);
                for c in 0..4 {
                    check((y[c] - s(c, t)).abs() <= 40.0 * tol * (1.0 + 4.0), &format!("tol {:e} t {} y{} {} expected {}", tol, t, c, y[c], s(c, t)));
                }
            }
            let _ = stop;
        }
    }
}
"""
seed("I23-small-changes-of-step-ignored", [(LIB, "if (self.ida_hh != self.ida_hused) || (self", "if ((self.ida_hh - self.ida_hused).abs() > P::Scalar::quarter() * self.ida_hused.abs()) || (self")],
     "a step that is shortened by less than a quarter at unchanged order", "the formula's coefficients are those of the longer step; the solution drifts off", ACC)
seed("I23-last-column-not-rescaled", [(LIB, ".slice_axis_mut(Axis(0), Slice::from(self.ida_ns..self.ida_kk + 1));\n            let beta = self.ida_beta.slice(s![self.ida_ns..self.ida_kk + 1]);",
     ".slice_axis_mut(Axis(0), Slice::from(self.ida_ns..self.ida_kk + 2 - self.ida_ns.min(2)));\n            let beta = self.ida_beta.slice(s![self.ida_ns..self.ida_kk + 2 - self.ida_ns.min(2)]);")],
     "a second or later step at unchanged order and size", "the highest difference keeps its old scale; the solution drifts off", ACC)

seed("I24-interval-by-next-step", [(LIB, """        let tp = self.nlp.ida_tn - self.ida_hused - tfuzz;
        if ((t - tp) * self.ida_hh) < P::Scalar::zero() {
            Err(IdaError::BadTimeValue {
                t: t.to_f64().unwrap(),
                tdiff: (self.nlp.ida_tn - self.ida_hused).to_f64().unwrap(),""", """        let tp = self.nlp.ida_tn - self.ida_hused - tfuzz;
        if ((t - tp) * self.ida_hh) < P::Scalar::zero() {
            Err(IdaError::BadTimeValue {
                t: t.to_f64().unwrap(),
                tdiff: (self.nlp.ida_tn - self.ida_hh).to_f64().unwrap(),""")],
     "a request before the last step, after a step whose size is about to change", "the error tells the caller a wrong interval in which requests are legal", """
fn main() {
    ctx(|c| c.quiet = vec![1e-9]);
    let mut a = ida::<Scripted>(still(1), &[1.0], &[0.0], 1e-3, 1e-3);
    for _ in 0..8 {
        one(&mut a, 100.0).0.unwrap();
        let (t, h) = (a.get_current_time(), a.get_last_step());
        let e = format!("{:?}", a.get_solution(t - 3.0 * h).unwrap_err());
        let d: f64 = e.split("tdiff: ").nth(1).unwrap().split(',').next().unwrap().parse().unwrap();
        check((d - (t - h)).abs() < 1e-12 * t, &format!("{} but the step began at {:e}", e, t - h));
    }
}
""")
seed("I24-singular-called-failed-setup", [(LIB, """                                // return (IDA_CONV_FAIL);
                                _ =>""", """                                // return (IDA_LSETUP_FAIL);
                                Recoverable::LSetup => {
                                    Err(failure::Error::from(IdaError::LinearSetupFail {}))
                                }

                                // return (IDA_CONV_FAIL);
                                _ =>""")],
     "a Jacobian that stays singular through ten retries", "the caller is told of a non-recoverable error of the setup routine, though a smaller step was being tried", """
fn main() {
    let p = P { n: 1, nr: 0, f: |_, _, p, r| r[0] = p[0], j: |_, _, _, _, m| m[0] = 0.0, g: |_, _, _| () };
    let mut a = ida::<Newton<P>>(p, &[1.0], &[0.0], 1e-3, 1e-3);
    let e = format!("{:?}", one(&mut a, 1.0).0.unwrap_err());
    check(e.starts_with("ConvergenceFail"), &e);
    check(a.get_num_nonlin_solv_conv_fails() == 10, "failures");
}
""")
seed("S03-function-against-time-tolerance", [(ROOT, "        let mut imax_loop = 0;\n", "        let mut imax_loop = 0;\n        let tiny = self.ida_ttol;\n"),
     (ROOT, """                        if ghi.abs() == P::Scalar::zero() {
                            if rootdir_glo_neg {
                                zroot = true;
                            }
                        } else {
                            if (glo""", """                        if ghi.abs() <= tiny {
                            if rootdir_glo_neg {
                                zroot = true;
                            }
                        } else {
                            if (glo"""),
     (ROOT, """                        if (ghi.abs() == P::Scalar::zero()) && rootdir_glo_neg {""",
      """                        if (ghi.abs() <= tiny) && rootdir_glo_neg {""")],
     "late times, where the tolerance of the location is large as a number, and a step that ends where the event function is small",
     "an event is reported where its function only comes near zero, since the value is compared with a tolerance for times", """
use ida::sample_problems::Roberts;
fn main() {
    for k in 0..400 {
        let r = 1e-7 * 1.02f64.powi(k);
        let a = |v: &[f64]| Array1::from_iter(v.iter().cloned());
        let mut i: Ida<Roberts, Dense<f64>, Newton<Roberts>, TolControlSV<f64>> =
            Ida::new(Roberts {}, a(&[1.0, 0.0, 0.0]), a(&[-0.04, 0.04, 0.0]), TolControlSV::new(r, a(&[1e-4 * r, 1e-2 * r, 1e-2 * r])));
        let mut roots = 0;
        for _ in 0..20 {
            let mut t = f64::NAN;
            match i.solve(4e8, &mut t, IdaTask::Normal) {
                Ok(IdaSolveStatus::Root) => {
                    roots += 1;
                    let y = i.get_yy();
                    let (v, w, tol) = if roots == 1 { (y[2], 0.01, r * 0.02) } else { (y[0], 1e-4, r * 2e-4) };
                    check((v - w).abs() <= 60.0 * tol, &format!("event {} at t = {:e} where the quantity is {:e}, not {:e}", roots, t, v, w));
                }
                Ok(_) => break,
                Err(_) => (),
            }
        }
        check(roots == 2, "events");
    }
}
""")
seed("S04-weights-by-signed-value", [(TOL, """            *ewt = (self.ida_rtol * ycur.abs() + self.ida_atol).recip();""",
     """            *ewt = (self.ida_rtol * *ycur + self.ida_atol).recip();""")],
     "scalar tolerances and a component well below zero", "the mechanism, whose velocities and angles change sign, cannot be integrated with scalar tolerances: weights become negative", """
use ida::sample_problems::SlCrank;
fn res(t: f64, y: &[f64], p: &[f64], r: &mut [f64]) {
    let a = |v: &[f64]| Array1::from_iter(v.iter().cloned());
    let mut out = a(&[0.0; 10]);
    SlCrank::default().res(t, a(y).view(), a(p).view(), out.view_mut());
    for i in 0..10 { r[i] = out[i]; }
}
fn jac(t: f64, cj: f64, y: &[f64], p: &[f64], m: &mut [f64]) {
    for j in 0..10 {
        let d = 1e-5;
        let at = |s: f64| {
            let (mut y, mut p, mut r) = (y.to_vec(), p.to_vec(), vec![0.0; 10]);
            y[j] += s;
            p[j] += cj * s;
            res(t, &y, &p, &mut r);
            r
        };
        let (a, b) = (at(d), at(-d));
        for i in 0..10 { m[i * 10 + j] = (a[i] - b[i]) / (2.0 * d); }
    }
}
fn main() {
    let a = |v: &[f64]| Array1::from_iter(v.iter().cloned());
    let p = P { n: 10, nr: 0, f: res, j: jac, g: none };
    // the state at the start
    let y0 = [1.57079632679489656e+00, 8.66025403784438597e-01, -5.23598775598298927e-01, 0.00000000000000000e+00, -0.00000000000000000e+00, -0.00000000000000000e+00, 1.31028856829700269e+00, -1.17017059221717656e+00, 0.00000000000000000e+00, 0.00000000000000000e+00];
    let yp0 = [0.00000000000000000e+00, -0.00000000000000000e+00, -0.00000000000000000e+00, -5.13397459621556140e-01, 2.56698729810778070e-01, 1.81498877766297565e-17, 0.0, 0.0, 0.0, 0.0];
    let want = [-1.00627983849009145e-01, 1.49620835864688839e+00, 5.02502667984012288e-02, -9.55865219310070180e-01, -7.19271525162110126e-02, 4.76115871233634746e-01];
    let mut i: Ida<P, Dense<f64>, Newton<P>, TolControlSS<f64>> = Ida::new(p, a(&y0), a(&yp0), TolControlSS::new(1e-5, 1e-5));
    i.set_suppress_alg(Array1::from_iter((0..10).map(|k| k < 6)));
    let mut ok = false;
    for _ in 0..20 {
        let mut t = f64::NAN;
        ctx(|c| c.log.clear());
        if let Ok(_) = i.solve(12.0, &mut t, IdaTask::Normal) { ok = true; break; }
    }
    check(ok, "the end is not reached");
    for k in 0..6 {
        check((i.get_yy()[k] - want[k]).abs() < 0.05, &format!("component {}: {} {}", k, i.get_yy()[k], want[k]));
    }
}
""")
seed("I25-location-to-a-fixed-time", [(ROOT, """        //if (retval != 0) return(IDA_RTFUNC_FAIL);

        self.ida_ttol = (self.nlp.ida_tn.abs() + self.ida_hh.abs())""", """        //if (retval != 0) return(IDA_RTFUNC_FAIL);

        self.ida_ttol = (self.nlp.ida_tn.abs().max(P::Scalar::one()) + self.ida_hh.abs())""")],
     "an event at a time far below one, as when time is counted in a large unit", "events are located only to about 2e-14 of a unit of time, whatever the unit", """
fn main() {
    for unit in [1.0, 1e-3, 1e-9, 1e-15] {
        script(vec![]);
        ctx(|c| { c.quiet = vec![1e-9]; c.log.clear(); });
        let p = match unit {
            u if u == 1.0 => P { nr: 1, g: |t, _y, g| g[0] = t - 0.3, ..still(1) },
            u if u == 1e-3 => P { nr: 1, g: |t, _y, g| g[0] = t * 1e3 - 0.3, ..still(1) },
            u if u == 1e-9 => P { nr: 1, g: |t, _y, g| g[0] = t * 1e9 - 0.3, ..still(1) },
            _ => P { nr: 1, g: |t, _y, g| g[0] = t * 1e15 - 0.3, ..still(1) },
        };
        let mut a = ida::<Scripted>(p, &[1.0], &[0.0], 1e-3, 1e-3);
        let (r, t) = normal(&mut a, unit);
        check(r.unwrap() == IdaSolveStatus::Root, "no event");
        check(near(t, 0.3 * unit, 1e-12), &format!("event at {:e} of the unit {:e}", t / unit, unit));
    }
}
""")
seed("I25-fixed-noise-in-changes-of-step", [(LIB, "if (self.ida_hh != self.ida_hused) || (self", """if ((self.ida_hh - self.ida_hused).abs() > P::Scalar::epsilon().sqrt() * P::Scalar::pt01()) || (self""")],
     "steps that are small as numbers, as when time is counted in a large unit", "changes of such steps go unnoticed, the formula's coefficients are wrong", """
fn run(unit: f64, p: P) {
    let mut a = ida::<Newton<P>>(p, &[1.0], &[-1.0 / unit], 1e-5, 1e-8);
    let mut ok = false;
    for _ in 0..10 {
        ctx(|c| c.log.clear());
        if normal(&mut a, 2.0 * unit).0.is_ok() { ok = true; break; }
    }
    check(ok, "the end is not reached");
    let y = yy(&a)[0];
    check((y - (-2.0f64).exp()).abs() < 1e-3, &format!("unit {:e}: {} instead of {}", unit, y, (-2.0f64).exp()));
}
fn main() {
    run(1.0, P { n: 1, nr: 0, f: |_, y, p, r| r[0] = p[0] + y[0], j: |_, cj, _, _, m| m[0] = cj + 1.0, g: none });
    run(1e-12, P { n: 1, nr: 0, f: |_, y, p, r| r[0] = p[0] + 1e12 * y[0], j: |_, cj, _, _, m| m[0] = cj + 1e12, g: none });
}
""")

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), text=True, capture_output=True, **k)

def make(id):
    edits, needs, breaks, main = SEEDS[id]
    prop = id.split("-")[0]
    out = os.path.join(V, "seeded", id)
    scratch = "/tmp/seed-scratch"
    shutil.rmtree(scratch, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", scratch], "/tmp")
    for f, old, new in edits:
        p = os.path.join(scratch, f)
        s = open(p).read()
        if "W02" in id:
            s = s.replace("norm_wrms_masked(&self, w: &ArrayBase<S, D>, id: &ArrayBase<B, D>) -> A;", "@@")
        assert s.count(old) == 1, (id, f, s.count(old))
        s = s.replace(old, new).replace("@@", "norm_wrms_masked(&self, w: &ArrayBase<S, D>, id: &ArrayBase<B, D>) -> A;")
        if id.startswith("W02"):
            s = s.replace("mask[0] == A::zero()", "mask.iter().next() == Some(&A::zero())")
        open(p, "w").write(s)
    diff = sh("git diff", scratch).stdout
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "main.rs"), "w").write(main)
    for f in ("sup.rs", "demo.sh"):
        shutil.copy(os.path.join(DEMO, f), out)
    sh("tar --sort=name --mtime=2026-01-01 --owner=0 --group=0 --exclude=target --exclude=nearly_eq/Cargo.lock -cf - shim | gzip -n > %s/shim.tgz" % out, V)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.copy("/repo/Cargo.lock", scratch)
    t = sh("CARGO_TARGET_DIR=/tmp/seed-target cargo test --workspace --offline 2>&1", scratch)
    ok = "test result: FAILED" not in t.stdout and t.returncode == 0
    a = sh("bash %s/demo.sh" % out, "/repo")
    b = sh("bash %s/demo.sh" % out, scratch)
    good = a.returncode == 0 and b.returncode == 1 and ok
    print(id, "tests", "pass" if ok else "FAIL", "demo clean", a.returncode, "patched", b.returncode, b.stdout.strip()[:160],
          "" if good else "  <<<<<< NOT VALID\n  clean: %s%s\n  patched: %s%s" % (a.stdout[-1500:], a.stderr[-600:], b.stdout[-2000:], b.stderr[-600:]) + (t.stdout[-800:] if not ok else ""), flush=True)
    shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    for i in (sys.argv[1:] or list(SEEDS)):
        make(next(k for k in SEEDS if k.startswith(i)))
