//! Newton's method together with the dense direct solver and the weighted norm, as a user of the
//! three puts them together: systems A (x - r) + q (x_c - r_c)^2 = 0 are solved one after another
//! by the same objects.
//!
//! usage: root SCRIPTS > TRACES
//!   S id n maxit              a session (one Newton solver, one matrix, one Dense solver)
//!   V call lazy diverge tol c[n] k[n] r[n] q[n] A[n*n by rows] y0[n] w[n]       one solve
//!     c: dominant unknown of every row; k: unit of every unknown (a power of two), for the record
//!     call: ask for a setup at the start; lazy: the problem keeps its matrix at a setup that does
//!     not demand a new one; diverge: the convergence test gives up when the corrections grow
use hcore::{hex, hexv, quiet_panics, tick, watchdog};
use linear::{Dense, LSolver};
use nalgebra::{
    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameAdd, Matrix, OMatrix, OVector,
    Storage, StorageMut, U1,
};
use nonlinear::norm_wrms::NormWRMS;
use nonlinear::{Error, NLProblem, NLSolver, Newton};
use std::io::Write;
use std::sync::Mutex;

static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
static HEAD: Mutex<String> = Mutex::new(String::new());
fn log(s: String) {
    LOG.lock().unwrap().push(s);
}

#[derive(Clone, Default)]
struct Sys {
    call: bool,
    lazy: bool,
    diverge: bool,
    tol: f64,
    c: Vec<usize>,
    k: Vec<i32>,
    r: Vec<f64>,
    q: Vec<f64>,
    a: Vec<f64>,
    y0: Vec<f64>,
    w: Vec<f64>,
}

struct Env<D: DimName>
where
    DefaultAllocator: Allocator<f64, D> + Allocator<f64, D, D> + Allocator<usize, D>,
{
    s: Sys,
    jac: OMatrix<f64, D, D>,
    x: OVector<f64, D>,
    ls: Dense<D>,
    old: f64,
    calls: usize,
    have: bool,
}

struct Runaway;

impl<D: DimName> NLProblem<f64, D> for Env<D>
where
    DefaultAllocator: Allocator<f64, D> + Allocator<f64, D, D> + Allocator<usize, D>,
{
    fn sys<SA, SB>(
        &mut self,
        y: &Matrix<f64, D, U1, SA>,
        f: &mut Matrix<f64, D, U1, SB>,
    ) -> Result<(), Error>
    where
        SA: Storage<f64, D, U1>,
        SB: StorageMut<f64, D, U1>,
    {
        self.calls += 1;
        if self.calls > 2000 {
            std::panic::panic_any(Runaway);
        }
        let n = D::dim();
        let s = &self.s;
        for i in 0..n {
            let mut v = 0.0;
            for j in 0..n {
                v += s.a[i * n + j] * (y[(j, 0)] - s.r[j]);
            }
            let k = s.c[i] - 1;
            let d = y[(k, 0)] - s.r[k];
            f[(i, 0)] = v + s.q[i] * d * d;
        }
        Ok(())
    }

    fn setup<SA, SB>(
        &mut self,
        y: &Matrix<f64, D, U1, SA>,
        _f: &Matrix<f64, D, U1, SB>,
        jbad: bool,
    ) -> Result<bool, Error>
    where
        SA: Storage<f64, D, U1>,
        SB: Storage<f64, D, U1>,
    {
        self.old = f64::NAN;
        if self.s.lazy && !jbad && self.have {
            log("{\"e\":\"kept\"}".into());
            return Ok(false);
        }
        let n = D::dim();
        for i in 0..n {
            let k = self.s.c[i] - 1;
            for j in 0..n {
                self.jac[(i, j)] = self.s.a[i * n + j]
                    + if j == k { 2.0 * self.s.q[i] * (y[(k, 0)] - self.s.r[k]) } else { 0.0 };
            }
        }
        let r = self.ls.setup(&mut self.jac).map_err(Error::from);
        self.have = r.is_ok();
        log(format!(
            "{{\"e\":\"setup\",\"y\":{},\"bad\":{},\"out\":\"{}\"}}",
            hexv(y.iter().copied()),
            jbad,
            match &r {
                Ok(()) => "ok".into(),
                Err(e) => code(e),
            }
        ));
        r.map(|_| true)
    }

    fn solve<SA, SB>(
        &mut self,
        _y: &Matrix<f64, D, U1, SA>,
        b: &mut Matrix<f64, D, U1, SB>,
    ) -> Result<(), Error>
    where
        SA: Storage<f64, D, U1>,
        SB: StorageMut<f64, D, U1>,
    {
        self.ls.solve(&self.jac, &mut self.x, b, 0.0)?;
        b.copy_from(&self.x);
        Ok(())
    }

    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        _solver: &NLS,
        y: &Matrix<f64, D, U1, SA>,
        del: &Matrix<f64, D, U1, SB>,
        tol: f64,
        ewt: &Matrix<f64, D, U1, SC>,
    ) -> Result<bool, Error>
    where
        NLS: NLSolver<f64, D>,
        SA: Storage<f64, D, U1>,
        SB: Storage<f64, D, U1>,
        SC: Storage<f64, D, U1>,
    {
        let nrm = del.norm_wrms(ewt);
        let out = if nrm <= tol {
            "conv"
        } else if self.s.diverge && nrm > 2.0 * self.old {
            "grow"
        } else {
            "not"
        };
        self.old = nrm;
        log(format!(
            "{{\"e\":\"iter\",\"y\":{},\"del\":{},\"nrm\":{},\"out\":\"{}\"}}",
            hexv(y.iter().copied()),
            hexv(del.iter().copied()),
            hex(nrm),
            out
        ));
        match out {
            "conv" => Ok(true),
            "not" => Ok(false),
            _ => Err(Error::ConvergenceRecover {}),
        }
    }
}

fn code(e: &Error) -> String {
    match e {
        Error::ConvergenceRecover {} => "rec".into(),
        Error::LinearSetupFailed {
            source: linear::Error::LUFactFail { col },
        } => format!("col{}", col),
        _ => "other".into(),
    }
}

fn session<D>(maxit: usize, solves: &[Sys])
where
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<f64, D> + Allocator<f64, D, D> + Allocator<usize, D>,
{
    let n = D::dim();
    let mut newton = <Newton<f64, D> as NLSolver<f64, D>>::new(maxit);
    let mut env = Env::<D> {
        s: Sys::default(),
        jac: OMatrix::<f64, D, D>::zeros(),
        x: OVector::<f64, D>::zeros(),
        ls: <Dense<D> as LSolver<f64, D>>::new(),
        old: f64::NAN,
        calls: 0,
        have: false,
    };
    for s in solves {
        env.s = s.clone();
        env.old = f64::NAN;
        env.calls = 0;
        let rows: Vec<String> = (0..n).map(|i| hexv(s.a[i * n..(i + 1) * n].iter().copied())).collect();
        log(format!(
            "{{\"e\":\"start\",\"call\":{},\"lazy\":{},\"diverge\":{},\"tol\":{},\"c\":{:?},\"k\":{:?},\"r\":{},\"q\":{},\"A\":[{}],\"y\":{},\"w\":{}}}",
            s.call,
            s.lazy,
            s.diverge,
            hex(s.tol),
            s.c,
            s.k,
            hexv(s.r.iter().copied()),
            hexv(s.q.iter().copied()),
            rows.join(","),
            hexv(s.y0.iter().copied()),
            hexv(s.w.iter().copied())
        ));
        let y0 = OVector::<f64, D>::from_column_slice(&s.y0);
        let w = OVector::<f64, D>::from_column_slice(&s.w);
        let mut y = OVector::<f64, D>::from_element(-77.5);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            newton.solve(&mut env, &y0, &mut y, &w, s.tol, s.call)
        }));
        let out = match &res {
            Ok(Ok(())) => "ok".into(),
            Ok(Err(e)) => code(e),
            Err(p) if p.is::<Runaway>() => "runaway".into(),
            Err(_) => "panic".into(),
        };
        log(format!("{{\"e\":\"end\",\"y\":{},\"out\":\"{}\"}}", hexv(y.iter().copied()), out));
        if res.is_err() {
            break;
        }
    }
}

fn main() {
    quiet_panics();
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("script file")).unwrap();
    let mut sessions: Vec<(String, usize, usize, Vec<Sys>)> = vec![];
    for line in text.lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        if f[0] == "S" {
            sessions.push((f[1].into(), f[2].parse().unwrap(), f[3].parse().unwrap(), vec![]));
            continue;
        }
        let n = sessions.last().unwrap().1;
        let x = |s: &str| f64::from_bits(u64::from_str_radix(s, 16).unwrap());
        let at = |k: usize, m: usize| -> Vec<f64> { f[k..k + m].iter().map(|s| x(s)).collect() };
        let k = 5 + 2 * n;
        sessions.last_mut().unwrap().3.push(Sys {
            call: f[1] == "1",
            lazy: f[2] == "1",
            diverge: f[3] == "1",
            tol: x(f[4]),
            c: f[5..5 + n].iter().map(|s| s.parse().unwrap()).collect(),
            k: f[5 + n..k].iter().map(|s| s.parse().unwrap()).collect(),
            r: at(k, n),
            q: at(k + n, n),
            a: at(k + 2 * n, n * n),
            y0: at(k + 2 * n + n * n, n),
            w: at(k + 3 * n + n * n, n),
        });
    }
    let render = |h: &str, ev: &[String]| format!("{{{},\"ev\":[{}]}}", h, ev.join(","));
    watchdog(20, move || {
        let mut l = LOG.lock().unwrap().clone();
        l.push("{\"e\":\"end\",\"y\":[],\"out\":\"runaway\"}".into());
        println!("{}", render(&HEAD.lock().unwrap().clone(), &l));
    });
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for (id, n, maxit, solves) in &sessions {
        tick();
        LOG.lock().unwrap().clear();
        let head = format!("\"id\":\"{}\",\"n\":{},\"maxit\":{}", id, n, maxit);
        *HEAD.lock().unwrap() = head.clone();
        macro_rules! go {
            ($($d:literal),*) => {
                match n { $($d => session::<Const<$d>>(*maxit, solves),)* d => panic!("dim {}", d) }
            };
        }
        go!(1, 2, 3, 4, 5, 8, 12);
        let l = LOG.lock().unwrap().clone();
        writeln!(out, "{}", render(&head, &l)).unwrap();
        out.flush().unwrap();
    }
}
