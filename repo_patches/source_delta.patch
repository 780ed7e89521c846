From 27a6ba2428821e1c10a9b763186557b06ca36da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 01/15] fix: end a Newton solve after a second recoverable
 failure

A recoverable convergence failure with a current Jacobian fell through the
match arm and restarted the attempt for ever; persistent recoverable failures
before the Jacobian became current were retried without bound.
---
 crates/nonlinear/src/newton.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 7cf5eef..de90547 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -143,13 +143,12 @@ where
 
                 // If there is a recoverable convergence failure and the Jacobian-related data appears not to be
                 // current, increment the convergence failure count and loop again with a call to lsetup in which jbad = true.
-                Err(Error::ConvergenceRecover {}) => {
-                    if !self.jcur {
-                        self.nconvfails += 1;
-                        call_lsetup = true;
-                        jbad = true;
-                        continue 'outer;
-                    }
+                // This is attempted only once per solve.
+                Err(Error::ConvergenceRecover {}) if !self.jcur && !jbad => {
+                    self.nconvfails += 1;
+                    call_lsetup = true;
+                    jbad = true;
+                    continue 'outer;
                 }
 
                 // Otherwise break out and return.
-- 
2.43.0


From d974fcad91b04b46e35cded4ee5dd510670c885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:24 +0000
Subject: [PATCH 02/15] hook: setters for the stop time and the error-test mask
 under cfg(ida_verif)

---
 src/ida_io.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ida_io.rs b/src/ida_io.rs
index 1928bcb..cd5d1d9 100644
--- a/src/ida_io.rs
+++ b/src/ida_io.rs
@@ -116,3 +116,24 @@ where
         self.ida_iroots.view()
     }
 }
+
+/// Access to settings that have no public setter, for the verification harness only.
+#[cfg(ida_verif)]
+impl<P, LS, NLS, TolC> Ida<P, LS, NLS, TolC>
+where
+    P: IdaProblem,
+    LS: linear::LSolver<P::Scalar>,
+    NLS: nonlinear::NLSolver<P>,
+    TolC: TolControl<P::Scalar>,
+{
+    /// Sets the stop time.
+    pub fn set_stop_time(&mut self, tstop: P::Scalar) {
+        self.ida_tstop = Some(tstop);
+    }
+
+    /// Marks the components (`true`: differential) that local error tests look at.
+    pub fn set_suppress_alg(&mut self, id: Array1<bool>) {
+        self.ida_id = id;
+        self.ida_suppressalg = true;
+    }
+}
-- 
2.43.0


From bcb45994a4859cc3215b82f72a883f1850a30296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:45 +0000
Subject: [PATCH 03/15] fix: evaluate the Jacobian at the time of the step
 attempt

The Jacobian function was always given t = 0.
---
 src/ida_ls.rs  | 4 ++--
 src/ida_nls.rs | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 387ee56..4e8b0af 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -231,6 +231,7 @@ where
     /// This calls the Jacobian evaluation routine, updates counters, and calls the LS `setup` routine to prepare for subsequent calls to the LS 'solve' routine.
     pub fn setup<S1, S2, S3>(
         &mut self,
+        tn: P::Scalar,
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
@@ -256,9 +257,8 @@ where
 
             // Call Jacobian routine
             //retval = self.jac(IDA_mem->ida_tn, IDA_mem->ida_cj, y, yp, r, idals_mem->J, idals_mem->J_data, vt1, vt2, vt3);
-            //TODO fix
             self.problem.jac(
-                P::Scalar::zero(),
+                tn,
                 self.ida_cj,
                 y.view(),
                 yp.view(),
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 05cebbe..a3c9d1b 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -167,8 +167,12 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp
-            .setup(self.ida_yy.view(), self.ida_yp.view(), res.view());
+        self.lp.setup(
+            self.ida_tn,
+            self.ida_yy.view(),
+            self.ida_yp.view(),
+            res.view(),
+        );
 
         // update Jacobian status
         //*jcur = SUNTRUE;
-- 
2.43.0


From 9163b530151a462a49eeb7f4a985e5fd27d1ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:11 +0000
Subject: [PATCH 04/15] fix: retry a step whose nonlinear iteration fails to
 converge with a smaller step

The nonlinear solver reports a recoverable convergence failure with its own
error type, which the failure handler took for an unrecoverable error.
---
 src/error.rs |  2 ++
 src/lib.rs   | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 0055934..b2e766e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -12,6 +12,8 @@ pub enum Recoverable {
     Constraint,
     /// IDA_NLS_SETUP_RECVR
     NLSSetup,
+    /// SUN_NLS_CONV_RECVR
+    Convergence,
 }
 
 #[derive(Debug, Fail)]
diff --git a/src/lib.rs b/src/lib.rs
index 9bf7fe5..029a5e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1129,6 +1129,17 @@ where
 
         self.ida_phase = 1;
 
+        // The nonlinear solver reports a recoverable convergence failure with its own error type
+        let error = match error.downcast::<nonlinear::Error>() {
+            Ok(nonlinear::Error::ConvergenceRecover {}) => {
+                failure::Error::from(IdaError::RecoverableFail {
+                    rec_type: Recoverable::Convergence,
+                })
+            }
+            Ok(error) => failure::Error::from(error),
+            Err(error) => error,
+        };
+
         // Try and convert the error into an IdaError
         error
             .downcast::<IdaError>()
-- 
2.43.0


From 4fe0c50cc611b4851f852c6edb8c0c2f0cabebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 05/15] fix: report a failed linear setup or solve as a
 recoverable failure

A singular Jacobian panicked and the result of the linear solve was ignored.
---
 src/ida_ls.rs  | 19 ++++++++++++++++---
 src/ida_nls.rs |  6 +++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 4e8b0af..2a211b8 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -2,6 +2,7 @@ use log::warn;
 use ndarray::prelude::*;
 
 use super::constants::IdaConst;
+use super::error::{IdaError, Recoverable};
 use super::linear::{LSolver, LSolverType};
 use super::traits::IdaProblem;
 use super::IdaCounters;
@@ -235,7 +236,8 @@ where
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -284,9 +286,15 @@ where
         }
 
         // Call LS setup routine -- the LS will call idaLsPSetup if applicable
-        self.ls.setup(self.mat_j.view_mut()).unwrap();
+        if self.ls.setup(self.mat_j.view_mut()).is_err() {
+            return Err(failure::Error::from(IdaError::RecoverableFail {
+                rec_type: Recoverable::LSetup,
+            }));
+        }
         //self.last_flag = SUNLinSolSetup(idals_mem->LS, idals_mem->J);
         //return(self.last_flag);
+
+        Ok(())
     }
 
     /// idaLsSolve
@@ -302,7 +310,8 @@ where
         _ycur: ArrayBase<S3, Ix1>,
         _ypcur: ArrayBase<S4, Ix1>,
         _rescur: ArrayBase<S5, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::DataMut<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -412,6 +421,9 @@ where
         // Increment ncfl counter
         if retval.is_err() {
             self.ncfl += 1;
+            return Err(failure::Error::from(IdaError::RecoverableFail {
+                rec_type: Recoverable::LSolve,
+            }));
         }
 
         /*
@@ -452,6 +464,7 @@ where
         */
 
         //return(0);
+        Ok(())
     }
 
     /// idaLsPerf: accumulates performance statistics information for IDA
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index a3c9d1b..80eeaa0 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -167,7 +167,7 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp.setup(
+        let retval = self.lp.setup(
             self.ida_tn,
             self.ida_yy.view(),
             self.ida_yp.view(),
@@ -187,7 +187,7 @@ where
 
         //return(IDA_SUCCESS);
 
-        Ok(true)
+        retval.map(|_| true)
     }
 
     /// idaNlsLSolve
@@ -206,7 +206,7 @@ where
             self.ida_yy.view(),
             self.ida_yp.view(),
             self.ida_savres.view(),
-        );
+        )?;
 
         // lp solved, delta = [-0.00000000000000001623748801571458, -0.0000000004872681362104435, 0.0000000004865181206243604]
         //[7.5001558608301906e-13,-4.8726813621044346e-10,4.8651812062436036e-10,]
-- 
2.43.0


From dc849e884fbd9644358d96bed52d74dcb9811ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:10 +0000
Subject: [PATCH 06/15] fix: rescale only phi[1] when the first step is
 attempted again

The initial values themselves were scaled down with it.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 029a5e8..6178ab1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1259,7 +1259,8 @@ where
     /// reset phi[1] and psi[0].
     fn reset(&mut self) -> () {
         self.ida_psi[0] = self.ida_hh;
-        self.ida_phi *= self.ida_rr;
+        let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+        phi *= self.ida_rr;
     }
 
     /// This routine evaluates `y(t)` and `y'(t)` as the value and derivative of the interpolating
-- 
2.43.0


From 564c83f354b26b1bab833457eea436ba85429b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 07/15] fix: allow solve to be called again after its first
 step has failed

The derivative was scaled by the step size a second time, and the count of
root function evaluations started over.
---
 src/impl_r_check.rs | 2 +-
 src/impl_solve.rs   | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 0ffd576..03b97d1 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -48,7 +48,7 @@ where
             self.ida_glo.view_mut(),
         );
 
-        self.ida_nge = 1;
+        self.ida_nge += 1;
 
         let zroot = ndarray::Zip::from(self.ida_gactive.view_mut())
             .and(&self.ida_glo)
diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 51a2160..30a01ef 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -90,6 +90,13 @@ where
                 self.ida_setup_done = true;
             }
 
+            // If a previous call failed before completing a step, phi[1] is still psi[0]*y'
+            if self.ida_psi[0] != P::Scalar::zero() {
+                let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+                phi /= self.ida_psi[0];
+                self.ida_psi[0] = P::Scalar::one();
+            }
+
             // On first call, check for tout - tn too small, set initial hh, check for approach to
             // tstop, and scale phi[1] by hh.
             // Also check for zeros of root function g at and near t0.
@@ -166,6 +173,7 @@ where
             // set phi[1] = hh*y'
             let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
             phi *= self.ida_hh;
+            self.ida_psi[0] = self.ida_hh;
 
             // Set the convergence test constants epsNewt and toldel
             self.ida_eps_newt = self.ida_epcon;
-- 
2.43.0


From 5c5bfb701fdc1b5180d545f3d222ac9ee7b36b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 08/15] fix: restore all of psi, and ns, after a failed step
 attempt

psi[kk] was left behind, which spoils interpolation over the last step when
the attempt followed a reduction of the order.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6178ab1..9249b4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -642,6 +642,8 @@ where
             // Set method coefficients
             //-----------------------
 
+            let saved_psi = self.ida_psi.clone();
+            let saved_ns = self.ida_ns;
             let ck = self.set_coeffs();
 
             //kflag = IDA_SUCCESS;
@@ -676,6 +678,8 @@ where
                 .or_else(|(err_k, err_km1, err)| {
                     // restore and decide what to do
                     self.restore(saved_t);
+                    self.ida_psi.assign(&saved_psi);
+                    self.ida_ns = saved_ns;
 
                     self.handle_n_flag(err, err_k, err_km1, &mut ncf, &mut nef)
                         .map(|_| {
-- 
2.43.0


From e227efa2551cd5e4e97e4906dcfa4a88f3ab96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 09/15] fix: sum all terms of higher derivatives in get_dky

The recurrence for the k-th derivative stopped too early for k > 1 and ran
over for k = 0.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9249b4b..3e39b2a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -496,7 +496,7 @@ where
             // update c_j^(i)
             //j does not need to go till kused
             //for(j=i+1; j<=self.ida_kused-k+i; j++) {
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..=self.ida_kused - k + i {
                 cjk[j] =
                     (scalar_i * cjk_1[j - 1] + cjk[j - 1] * (delt + psij_1)) / self.ida_psi[j - 1];
                 psij_1 = self.ida_psi[j - 1];
@@ -504,7 +504,7 @@ where
 
             // save existing c_j^(i)'s
             //for(j=i+1; j<=self.ida_kused-k+i; j++)
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..=self.ida_kused - k + i {
                 cjk_1[j] = cjk[j];
             }
         }
-- 
2.43.0


From 6d0f88db6b4d36d8fa7506281bf56d8bd26c3482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 10/15] fix: watch all event functions from the start

They only became active after the first step, so that an event within the
first step was missed.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3e39b2a..3944cf0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -370,7 +370,7 @@ where
             ida_mxgnull: 1,
             ida_tlo: P::Scalar::zero(),
             ida_ttol: P::Scalar::zero(),
-            ida_gactive: Array::from_elem(problem.num_roots(), false),
+            ida_gactive: Array::from_elem(problem.num_roots(), true),
             ida_taskc: IdaTask::Normal,
             ida_toutc: P::Scalar::zero(),
             ida_thi: P::Scalar::zero(),
-- 
2.43.0


From 1472ca62e57d96472ef50c4797bf996057d8abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 11/15] fix: report the direction of a zero crossing with the
 right sign

iroots is 1 where the function increases and -1 where it decreases.
---
 src/impl_r_check.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 03b97d1..d50a4d3 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -401,7 +401,7 @@ where
                         let rootdir_glo_neg = <P::Scalar as NumCast>::from(rootdir).unwrap() * glo
                             <= P::Scalar::zero();
                         if (ghi.abs() == P::Scalar::zero()) && rootdir_glo_neg {
-                            *iroots = glo.signum();
+                            *iroots = -glo.signum();
                         }
                     }
                 });
@@ -567,7 +567,7 @@ where
                     if rootdir_glo_neg
                         && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))
                     {
-                        *iroots = glo.signum();
+                        *iroots = -glo.signum();
                     }
                 }
             });
-- 
2.43.0


From 2fa9ce6b9339ccea128e5b7a6bad35a8622ea6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 12/15] fix: do not search for events when tout is not beyond
 the last point searched

---
 src/impl_r_check.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index d50a4d3..23e1868 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -232,6 +232,11 @@ where
             }
         }
 
+        // Nothing lies beyond tlo if tout does not.
+        if (self.ida_thi - self.ida_tlo) * self.ida_hh <= P::Scalar::zero() {
+            return Ok(RootStatus::Continue);
+        }
+
         // Get y and y' at thi.
         self.get_solution(self.ida_thi);
 
-- 
2.43.0


From 68eab65361f0ceec7ff8213296667a3893623eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 13/15] fix: clear the stop time when a one-step call returns
 at it

---
 src/impl_solve.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 30a01ef..b173872 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -238,10 +238,12 @@ where
 
             let istate = self.stop_test1(tout, tret, itask);
             match istate {
-                Err(_)
-                | Ok(IdaSolveStatus::Root)
-                | Ok(IdaSolveStatus::Success)
-                | Ok(IdaSolveStatus::TStop) => {
+                Ok(IdaSolveStatus::TStop) => {
+                    // The stop time has been reached, in one-step mode as well
+                    self.ida_tstop = None;
+                    return istate;
+                }
+                Err(_) | Ok(IdaSolveStatus::Root) | Ok(IdaSolveStatus::Success) => {
                     return istate;
                 }
                 _ => {}
-- 
2.43.0


From ea8ae2ed624a90bee8b6c834c3387f0df519886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 14/15] fix: refuse zero tolerances, on the first call as well

Infinite error weights were accepted, and the weights of the first step were
never checked.
---
 src/impl_solve.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index b173872..eac02f2 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -272,26 +272,32 @@ where
             // Call lperf to generate warnings of poor performance.
             self.nlp.lp.ls_perf(&self.counters, true);
 
-            // Reset and check ewt (if not first call).
+            // Reset ewt (if not first call) and check it.
             if self.counters.ida_nst > 0 {
                 self.tol_control.ewt_set(
                     self.ida_phi.index_axis(Axis(0), 0),
                     self.nlp.ida_ewt.view_mut(),
                 );
+            }
 
-                if self.nlp.ida_ewt.iter().any(|&x| x <= P::Scalar::zero()) {
-                    let _ier = self.get_solution(self.nlp.ida_tn);
-                    *tret = self.nlp.ida_tn;
-                    self.ida_tretlast = self.nlp.ida_tn;
+            // A zero tolerance makes a weight infinite
+            if self
+                .nlp
+                .ida_ewt
+                .iter()
+                .any(|&x| !(x > P::Scalar::zero()) || x.is_infinite())
+            {
+                let _ier = self.get_solution(self.nlp.ida_tn);
+                *tret = self.nlp.ida_tn;
+                self.ida_tretlast = self.nlp.ida_tn;
 
-                    //IDAProcessError(IDA_mem, IDA_ILL_INPUT, "IDA", "IDASolve", MSG_EWT_NOW_BAD, self.nlp.ida_tn);
-                    Err(IdaError::IllegalInput {
-                        msg: format!(
-                            "At t = {:?} some ewt component has become <= 0.0.",
-                            self.nlp.ida_tn
-                        ),
-                    })?
-                }
+                //IDAProcessError(IDA_mem, IDA_ILL_INPUT, "IDA", "IDASolve", MSG_EWT_NOW_BAD, self.nlp.ida_tn);
+                Err(IdaError::IllegalInput {
+                    msg: format!(
+                        "At t = {:?} some ewt component is not a positive number.",
+                        self.nlp.ida_tn
+                    ),
+                })?
             }
 
             // Check for too much accuracy requested.
-- 
2.43.0


From 43bf012863fdf347f927ac8f4c306ed6e661af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 15/15] fix: provide the solution when tout is the time
 returned last

yy and yp were left as the last interpolation had set them.
---
 src/impl_solve.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index eac02f2..36d4926 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -243,7 +243,12 @@ where
                     self.ida_tstop = None;
                     return istate;
                 }
-                Err(_) | Ok(IdaSolveStatus::Root) | Ok(IdaSolveStatus::Success) => {
+                Ok(IdaSolveStatus::Success) => {
+                    // When tout is the time returned last, yy and yp may hold another solution
+                    self.get_solution(*tret)?;
+                    return istate;
+                }
+                Err(_) | Ok(IdaSolveStatus::Root) => {
                     return istate;
                 }
                 _ => {}
-- 
2.43.0

