#!/usr/bin/env python3
"""mkseed.py: maintain planted changes. Reads tools/seeds/<id>.py-style definitions from SEEDS (crates layer).
Creates seeded/<id>/{patch.diff,demo.sh,meta.json,...}, after confirming in a scratch copy that the
change builds, passes the existing tests, and that the demo separates it from the unchanged tree."""
import json, os, shutil, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NW = "crates/nonlinear/src/newton.rs"
DN = "crates/linear/src/dense.rs"
NORM = "crates/nonlinear/src/norm_wrms.rs"
DEMO = """#!/bin/bash
# run in /repo: exit 0 if the property's behaviour is intact
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
linear = { path = "$repo/crates/linear" }
nonlinear = { path = "$repo/crates/nonlinear" }
nalgebra = "0.32"
T
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cd "$d" && cargo build --offline --quiet 2>"$d/err" || { cat "$d/err"; exit 2; }
timeout 60 "$d/target/debug/demo"
"""
# a scripted problem: answers come from closures over a call counter
NPRE = """use nalgebra::*;
use nonlinear::{Error, NLProblem, NLSolver, Newton};
#[allow(dead_code)]
#[derive(Default)]
struct P { log: Vec<String>, setup: Vec<Result<bool, ()>>, ctest: Vec<Result<bool, ()>>, del: Vec<f64>, ns: usize, nc: usize, nl: usize, calls: usize }
impl P { fn tick(&mut self) { self.calls += 1; if self.calls > 500 { println!("runaway"); std::process::exit(1); } } }
impl NLProblem<f64, U1> for P {
    fn sys<A: Storage<f64, U1, U1>, B: StorageMut<f64, U1, U1>>(&mut self, y: &Matrix<f64, U1, U1, A>, f: &mut Matrix<f64, U1, U1, B>) -> Result<(), Error> {
        self.tick(); f[0] = 10.0 * y[0] + 1.0; self.log.push(format!("sys {}", y[0])); Ok(())
    }
    fn setup<A: Storage<f64, U1, U1>, B: Storage<f64, U1, U1>>(&mut self, y: &Matrix<f64, U1, U1, A>, f: &Matrix<f64, U1, U1, B>, jbad: bool) -> Result<bool, Error> {
        self.tick(); self.log.push(format!("setup {} {} {}", y[0], f[0], jbad));
        let r = self.setup.get(self.ns).cloned().unwrap_or(Ok(true)); self.ns += 1;
        r.map_err(|_| Error::ConvergenceRecover {})
    }
    fn solve<A: Storage<f64, U1, U1>, B: StorageMut<f64, U1, U1>>(&mut self, y: &Matrix<f64, U1, U1, A>, b: &mut Matrix<f64, U1, U1, B>) -> Result<(), Error> {
        self.tick(); self.log.push(format!("solve {} {}", y[0], b[0]));
        b[0] = self.del.get(self.nl).cloned().unwrap_or(1.0); self.nl += 1; Ok(())
    }
    fn ctest<N: NLSolver<f64, U1>, A: Storage<f64, U1, U1>, B: Storage<f64, U1, U1>, C: Storage<f64, U1, U1>>(&mut self, s: &N, y: &Matrix<f64, U1, U1, A>, d: &Matrix<f64, U1, U1, B>, _t: f64, _w: &Matrix<f64, U1, U1, C>) -> Result<bool, Error> {
        self.tick(); self.log.push(format!("ctest {} {} cur={}", y[0], d[0], s.get_cur_iter()));
        let r = self.ctest.get(self.nc).cloned().unwrap_or(Ok(true)); self.nc += 1;
        r.map_err(|_| Error::ConvergenceRecover {})
    }
}
#[allow(dead_code)]
fn run(n: &mut Newton<f64, U1>, p: &mut P, y0: f64, call: bool) -> (Result<(), Error>, f64) {
    let mut y = Vector1::new(77.0);
    let r = n.solve(p, &Vector1::new(y0), &mut y, &Vector1::new(1.0), 0.5, call);
    (r, y[0])
}
fn check(b: bool, what: &str) { if !b { println!("BROKEN: {}", what); std::process::exit(1); } }
"""
LPRE = """use linear::{Dense, LSolver};
use nalgebra::*;
#[allow(dead_code)]
fn check(b: bool, what: &str) { if !b { println!("BROKEN: {}", what); std::process::exit(1); } }
"""
SEEDS = {}
def seed(id, prop, file, old, new, needs, breaks, main):
    SEEDS[id] = (prop, [(file, old, new)], needs, breaks, main)

seed("N03-retry-from-last-iterate", "N03", NW, "                    y.copy_from(&y0);\n",
     "                    if !jbad || self.niters == 0 {\n                        y.copy_from(&y0);\n                    }\n",
     "a recoverable failure after at least one rejected correction, followed by a retry in the same solve",
     "the retry continues from the diverged iterate instead of the caller's guess", NPRE + """
fn main() {
    let mut p = P { ctest: vec![Ok(false), Err(())], del: vec![1.0, 2.0, 0.5], ..Default::default() };
    let mut n = Newton::new(5);
    let (r, y) = run(&mut n, &mut p, 3.0, false);
    check(r.is_ok() && y == 3.5, &format!("expected 3.5 got {} {:?}", y, p.log));
}
""")
SEEDS["N07-curiter-not-reset"] = ("N07", [
    (NW, "                    // initialize counter curiter\n                    self.curiter = 0;\n\n", ""),
    (NW, "        // assume the Jacobian is good\n        let mut jbad = false;\n",
     "        // assume the Jacobian is good, initialize counter curiter\n        let mut jbad = false;\n        self.curiter = 0;\n")],
    "an attempt that fails after rejecting a correction, followed by a retry",
    "the iteration index seen by the convergence test keeps counting across the retry", NPRE + """
fn main() {
    let mut p = P { ctest: vec![Ok(false), Err(())], ..Default::default() };
    let mut n = Newton::new(5);
    let (r, _) = run(&mut n, &mut p, 3.0, false);
    let c: Vec<_> = p.log.iter().filter(|l| l.starts_with("ctest")).collect();
    check(r.is_ok() && c.len() == 3 && c[2].ends_with("cur=0"), &format!("{:?}", c));
}
""")
seed("N06-jacobian-stays-current", "N06", NW,
     "                                        // if successful update Jacobian status and return\n                                        self.jcur = false;\n                                        Ok(true)\n",
     "                                        // if successful update Jacobian status and return\n                                        self.jcur &= self.curiter == 0;\n                                        Ok(true)\n",
     "a solve that sets up and converges at its first correction, then a solve without setup that fails recoverably",
     "the Jacobian is still taken for current after a successful solve, so the retry is suppressed", NPRE + """
fn main() {
    let mut n = Newton::new(5);
    let mut p = P::default();
    check(run(&mut n, &mut p, 3.0, true).0.is_ok(), "first");
    let mut p = P { ctest: vec![Err(()), Ok(true)], ..Default::default() };
    check(run(&mut n, &mut p, 4.0, false).0.is_ok(), "stale Jacobian: a retry was due");
}
""")
seed("N05-retry-setup-at-iterate", "N05", NW,
     "                        problem\n                            .setup(y0, &self.delta, jbad)\n                            .map(|jcur| self.jcur = jcur)\n",
     "                        if jbad && self.curiter > 0 {\n                            problem.setup(y, &self.delta, jbad)\n                        } else {\n                            problem.setup(y0, &self.delta, jbad)\n                        }\n                        .map(|jcur| self.jcur = jcur)\n",
     "a retry after an attempt that had rejected at least one correction",
     "the Jacobian of the retry is evaluated at the abandoned iterate, inconsistently with the residual it gets", NPRE + """
fn main() {
    let mut p = P { ctest: vec![Ok(false), Err(())], ..Default::default() };
    let mut n = Newton::new(5);
    let _ = run(&mut n, &mut p, 3.0, false);
    check(p.log.iter().any(|l| l == "setup 3 31 true"), &format!("{:?}", p.log));
}
""")
seed("N02-zero-correction-converges", "N02", NW,
     "                            // update the Newton iterate\n                            *y += &self.delta;\n",
     "                            // nothing left to correct\n                            if self.curiter > 0 && self.delta.iter().all(|d| *d == T::zero()) {\n                                self.jcur = false;\n                                return Ok(true);\n                            }\n                            // update the Newton iterate\n                            *y += &self.delta;\n",
     "a linear solve answering exactly zero after a rejected correction",
     "success is reported without asking the convergence test", NPRE + """
fn main() {
    let mut p = P { ctest: vec![Ok(false), Err(()), Err(())], del: vec![1.0, 0.0, 1.0], ..Default::default() };
    let mut n = Newton::new(5);
    let _ = run(&mut n, &mut p, 3.0, true);
    check(p.nc == 2, &format!("convergence test not asked: {:?}", p.log));
}
""")
seed("N01-extra-iteration", "N01", NW, "                                        if self.curiter >= self.maxiters {\n",
     "                                        if self.curiter > self.maxiters {\n",
     "an attempt that uses up the whole iteration limit", "one iteration more than configured is made per attempt", NPRE + """
fn main() {
    let mut p = P { ctest: vec![Ok(false); 40], setup: vec![Ok(true)], ..Default::default() };
    let mut n = Newton::new(4);
    let (r, _) = run(&mut n, &mut p, 3.0, true);
    check(r.is_err() && p.nl == 4, &format!("{} linear solves", p.nl));
}
""")
seed("N04-residual-skipped-at-limit", "N04", NW,
     "                                            problem.sys(y, &mut self.delta).and(Ok(false))\n",
     "                                            // an unchanged iterate has the same residual\n                                            if *y == *y0 {\n                                                problem.sys(y0, &mut self.delta).and(Ok(false))\n                                            } else if self.curiter + 1 == self.maxiters && jbad {\n                                                self.delta.neg_mut();\n                                                Ok(false)\n                                            } else {\n                                                problem.sys(y, &mut self.delta).and(Ok(false))\n                                            }\n",
     "the last allowed iteration of a retry", "the last correction of a retry is computed from the previous correction instead of a residual", NPRE + """
fn main() {
    let mut p = P { ctest: vec![Err(()), Ok(false), Ok(true)], del: vec![1.0, 2.0, 4.0], ..Default::default() };
    let mut n = Newton::new(2);
    let _ = run(&mut n, &mut p, 3.0, false);
    check(p.log.iter().any(|l| l == "solve 5 -51"), &format!("{:?}", p.log));
}
""")
seed("N08-stale-flag", "N08", NW, "        let mut call_lsetup = call_lsetup;\n",
     "        let mut call_lsetup = call_lsetup || (self.curiter + 1 >= self.maxiters && self.nconvfails > 0);\n",
     "a solve after one that ended on its last allowed iteration, on a solver that has had a failure",
     "what an earlier solve left in the iteration counter forces a Jacobian setup nobody asked for", NPRE + """
fn main() {
    let mut n = Newton::new(2);
    let mut p = P { ctest: vec![Ok(false); 9], ..Default::default() };
    let _ = run(&mut n, &mut p, 3.0, true);
    let mut p = P::default();
    check(run(&mut n, &mut p, 4.0, false).0.is_ok() && p.ns == 0, &format!("{:?}", p.log));
}
""")
seed("L02-pivot-ignores-negative", "L02", DN, "            if col_k[i].abs() > col_k[l].abs() {\n",
     "            if col_k[i] > col_k[l].abs() || col_k[l] == T::zero() {\n",
     "a column whose largest entry is negative and below the diagonal",
     "negative entries are passed over as pivots, so multipliers exceed one", LPRE + """
fn main() {
    let mut a = matrix![1.0, 2.0; -4.0, 1.0];
    let mut d = <Dense<_> as LSolver<f64, U2>>::new();
    d.setup(&mut a).unwrap();
    check(a[(1, 0)].abs() <= 1.0, &format!("{}", a));
}
""")
seed("L03-tiny-pivot-rejected", "L03", DN, "        if col_k[l] == T::zero() {\n",
     "        if col_k[l].abs() <= T::default_epsilon() * T::default_epsilon() {\n",
     "a nonsingular matrix in small units", "well-conditioned matrices with tiny entries are called singular", LPRE + """
fn main() {
    let mut a = matrix![2e-40, 1e-40; 1e-40, 3e-40];
    let mut d = <Dense<_> as LSolver<f64, U2>>::new();
    check(d.setup(&mut a).is_ok(), "rejected");
}
""")
seed("L01-small-row-entries-dropped", "L01", DN, "            if a_kj != T::zero() {\n",
     "            if a_kj.abs() > T::default_epsilon() * mat_a[(k, k)].abs() {\n",
     "a pivot row whose other entries are much smaller than the pivot, as with badly scaled columns",
     "the elimination is skipped for relatively small entries and the solution is wrong", LPRE + """
fn main() {
    let a = matrix![1.0, 1e-20; 1.0, 3e-20];
    let mut lu = a;
    let b = vector![2.0, 4.0];
    let mut x = Vector2::zeros();
    let mut d = <Dense<_> as LSolver<f64, U2>>::new();
    d.setup(&mut lu).unwrap();
    d.solve(&lu, &mut x, &b, 0.0).unwrap();
    check(((a * x) - b).norm() < 1e-9, &format!("{}", x));
}
""")
seed("L05-stale-pivots", "L05", DN,
     "        pivot[k] = l;\n", "        if l != k || pivot[k] < k {\n            pivot[k] = l;\n        }\n",
     "a second setup that needs no interchange in a column where the first one did",
     "pivots of an earlier setup are applied to the new right-hand side", LPRE + """
fn main() {
    let mut d = <Dense<_> as LSolver<f64, U2>>::new();
    let mut a = matrix![0.0, 1.0; 1.0, 0.0];
    d.setup(&mut a).unwrap();
    let mut a = matrix![2.0, 0.0; 0.0, 4.0];
    d.setup(&mut a).unwrap();
    let mut x = Vector2::zeros();
    d.solve(&a, &mut x, &vector![2.0, 8.0], 0.0).unwrap();
    check(x == vector![1.0, 2.0], &format!("{}", x));
}
""")
seed("L04-zero-rhs-entries-not-copied", "L04", DN,
     "        x.set_column(0, &b);\n",
     "        for (xi, bi) in x.iter_mut().zip(b.iter()) {\n            if *bi != T::zero() || *xi != *xi || *xi + T::one() == *xi {\n                *xi = *bi;\n            }\n        }\n",
     "a right-hand side with a zero entry and an output vector holding something else there",
     "the result depends on the previous contents of the output vector", LPRE + """
fn main() {
    let mut d = <Dense<_> as LSolver<f64, U2>>::new();
    let mut a = matrix![2.0, 0.0; 0.0, 4.0];
    d.setup(&mut a).unwrap();
    let mut x = vector![5.0, 5.0];
    d.solve(&a, &mut x, &vector![2.0, 0.0], 0.0).unwrap();
    check(x == vector![1.0, 0.0], &format!("{}", x));
}
""")
seed("W01-zero-weights-shrink-mean", "W01", NORM,
     "        let len = T::from(self.nrows() as u32);\n",
     "        let len = T::from(w.iter().filter(|w| **w != T::zero()).count().max(1) as u32);\n",
     "a weight that is exactly zero", "the mean is taken over the components with nonzero weight only", """use nalgebra::*;
use nonlinear::norm_wrms::NormWRMS;
fn main() {
    let v = vector![2.0, 5.0].norm_wrms(&vector![1.0, 0.0]);
    if (v - 2f64.sqrt()).abs() > 1e-9 { println!("BROKEN {}", v); std::process::exit(1); }
}
""")

seed("C01-small-residuals-dropped", "C01", DN,
     "        let bk = b[k];\n        for i in (k + 1)..n {\n            b[i] -= col_k[i] * bk;\n        }\n",
     "        let bk = b[k];\n        if bk.abs() <= T::default_epsilon() {\n            continue;\n        }\n        for i in (k + 1)..n {\n            b[i] -= col_k[i] * bk;\n        }\n",
     "a residual whose components are below machine epsilon in absolute terms, as with small units",
     "corrections of small systems are wrong, so that the iteration stops beside the root or not at all", LPRE + """
fn main() {
    let a = matrix![4.0, 1.0; 2.0, 4.0];
    let mut lu = a;
    let b = vector![5e-18, 6e-18];
    let mut x = Vector2::zeros();
    let mut d = <Dense<_> as LSolver<f64, U2>>::new();
    d.setup(&mut lu).unwrap();
    d.solve(&lu, &mut x, &b, 0.0).unwrap();
    check((x - vector![1e-18, 1e-18]).norm() < 1e-24, &format!("{}", x));
}
""")
seed("C01-interchanges-undone-backwards", "C01", DN,
     "    for (k, &pk) in pivot.iter().enumerate().take(n) {\n",
     "    for k in (0..n).rev() {\n        let pk = pivot[k];\n",
     "a Jacobian whose rows come in a cyclic order of length three or more, so that the interchanges do not commute",
     "the right-hand side is permuted differently from the matrix", LPRE + """
fn main() {
    let a = matrix![0.0, 2.0, 0.0; 0.0, 0.0, 4.0; 8.0, 0.0, 0.0];
    let mut lu = a;
    let b = vector![2.0, 8.0, 24.0];
    let mut x = Vector3::zeros();
    let mut d = <Dense<_> as LSolver<f64, U3>>::new();
    d.setup(&mut lu).unwrap();
    d.solve(&lu, &mut x, &b, 0.0).unwrap();
    check(((a * x) - b).norm() < 1e-9, &format!("{}", x));
}
""")
seed("L03-last-pivot-not-checked", "L03", DN,
     "        if col_k[l] == T::zero() {\n",
     "        if k + 1 < m && col_k[l] == T::zero() {\n",
     "a matrix whose singularity shows in the last column only",
     "a singular matrix is accepted and later solves return infinities", LPRE + """
fn main() {
    let mut a = matrix![1.0, 2.0; 2.0, 4.0];
    let mut d = <Dense<_> as LSolver<f64, U2>>::new();
    check(d.setup(&mut a).is_err(), "singular matrix accepted");
}
""")
seed("L04-small-rhs-within-tolerance", "L04", DN,
     "        x.set_column(0, &b);\n",
     "        x.set_column(0, &b);\n        if _tol > T::zero() && b.norm() <= _tol {\n            return Ok(());\n        }\n",
     "a positive tolerance and a right-hand side smaller than it",
     "the answer depends on the tolerance, which a direct solver has to ignore", LPRE + """
fn main() {
    let mut d = <Dense<_> as LSolver<f64, U2>>::new();
    let mut a = matrix![2.0, 0.0; 0.0, 4.0];
    d.setup(&mut a).unwrap();
    let mut x = vector![5.0, 5.0];
    d.solve(&a, &mut x, &vector![2e-3, 4e-3], 1e-2).unwrap();
    check(x == vector![1e-3, 1e-3], &format!("{}", x));
}
""")
seed("N01-retries-while-jacobian-old", "N01", NW,
     "                Err(Error::ConvergenceRecover {}) if !self.jcur && !jbad => {\n",
     "                Err(Error::ConvergenceRecover {}) if !self.jcur && !(jbad && self.curiter > 0) => {\n",
     "a setup that never reports a current Jacobian and a first correction that fails recoverably again and again",
     "the solve never returns", NPRE + """
fn main() {
    let mut p = P { setup: vec![Ok(false); 300], ctest: vec![Err(()); 300], ..Default::default() };
    let mut n = Newton::new(5);
    let (r, _) = run(&mut n, &mut p, 3.0, true);
    check(r.is_err() && p.ns == 2, &format!("{} setups", p.ns));
}
""")
seed("N06-failed-jacobian-forgotten", "N06", NW,
     "        // increment number of convergence failures\n        self.nconvfails += 1;\n",
     "        // increment number of convergence failures\n        self.nconvfails += 1;\n        if self.curiter > 0 {\n            self.jcur = false;\n        }\n",
     "a failed solve with a current Jacobian that rejected corrections, then a solve without setup that fails recoverably",
     "the second solve evaluates and factorizes the same Jacobian again instead of giving up", NPRE + """
fn main() {
    let mut n = Newton::new(2);
    let mut p = P { ctest: vec![Ok(false), Ok(false)], ..Default::default() };
    check(run(&mut n, &mut p, 3.0, true).0.is_err(), "first");
    let mut p = P { ctest: vec![Err(()), Ok(true)], ..Default::default() };
    check(run(&mut n, &mut p, 3.0, false).0.is_err() && p.ns == 0, "the Jacobian was current: no retry was due");
}
""")

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), text=True, capture_output=True, **k)

def make(id):
    prop, edits, needs, breaks, main = SEEDS[id]
    out = os.path.join(V, "seeded", id)
    scratch = "/tmp/seed-scratch"
    shutil.rmtree(scratch, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", scratch], "/tmp")
    for f, old, new in edits:
        p = os.path.join(scratch, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", scratch).stdout
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "main.rs"), "w").write(main)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.copy("/repo/Cargo.lock", scratch)
    t = sh("CARGO_TARGET_DIR=/tmp/seed-target cargo test --workspace --offline 2>&1", scratch)
    ok = "test result: FAILED" not in t.stdout and t.returncode == 0
    a = sh("bash %s/demo.sh" % out, "/repo")
    b = sh("bash %s/demo.sh" % out, scratch)
    print(id, "tests", "pass" if ok else "FAIL", "demo clean", a.returncode, "patched", b.returncode, b.stdout.strip()[:100],
          "" if a.returncode == 0 and b.returncode == 1 and ok else "  <<<<<< NOT VALID " + a.stdout[-500:] + (t.stdout[-800:] if not ok else ""))
    shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    for i in (sys.argv[1:] or list(SEEDS)):
        make(i)
