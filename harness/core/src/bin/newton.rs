//! Replays scripted environments (sequences of answers of the user's routines, generated from
//! spec/Newton.tla) into `nonlinear::Newton` and records everything that crosses its boundary.
//!
//! usage: newton SCRIPTS > TRACES
use hcore::{hex, hexv, quiet_panics, tick, watchdog, Rng, Val};
use nalgebra::{
    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameAdd, Matrix, OVector, Storage,
    StorageMut, U1,
};
use nonlinear::{Error, NLProblem, NLSolver, Newton};
use std::io::Write;
use std::sync::Mutex;

#[derive(Clone, Default, Debug)]
struct SolveScript {
    call: bool,
    /// answers of sys, setup, lsolve, ctest
    streams: [Vec<String>; 4],
}

#[derive(Clone, Debug)]
struct Session {
    id: String,
    prec: u32,
    dim: usize,
    maxit: usize,
    vseed: u64,
    regime: u32,
    persist: bool,
    pair: bool,
    solves: Vec<SolveScript>,
}

/// events of the running session, so that the watchdog can write them out
static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
static HEAD: Mutex<String> = Mutex::new(String::new());

fn log(s: String) {
    LOG.lock().unwrap().push(s);
}

struct Runaway;

struct Env {
    script: SolveScript,
    pos: [usize; 4],
    rngs: [Rng; 4],
    regime: u32,
    persist: bool,
    calls: usize,
    budget: usize,
    fatal: u64,
    prev: Vec<f64>,
}

fn outcome(env: &mut Env, kind: usize) -> String {
    env.calls += 1;
    if env.calls > env.budget {
        std::panic::panic_any(Runaway);
    }
    let p = env.pos[kind];
    env.pos[kind] += 1;
    let st = &env.script.streams[kind];
    let o = if p < st.len() {
        st[p].clone()
    } else if env.persist && !st.is_empty() {
        st[st.len() - 1].clone()
    } else {
        ["ok", "true", "ok", "conv"][kind].to_string()
    };
    if o == "fatal" {
        match (env.fatal + env.calls as u64) % 3 {
            0 => "ill".into(),
            1 => "cont".into(),
            _ => format!("lin:{}", 1 + env.fatal % 7),
        }
    } else {
        o
    }
}

fn error(o: &str) -> Error {
    match o {
        "rec" => Error::ConvergenceRecover {},
        "ill" => Error::IllegalInput {},
        "cont" => Error::Continue {},
        _ => Error::LinearSetupFailed {
            source: linear::Error::LUFactFail {
                col: o[4..].parse().unwrap(),
            },
        },
    }
}

fn code(e: &Error) -> String {
    match e {
        Error::ConvergenceRecover {} => "rec".into(),
        Error::IllegalInput {} => "ill".into(),
        Error::Continue {} => "cont".into(),
        Error::LinearSetupFailed {
            source: linear::Error::LUFactFail { col },
        } => format!("lin:{}", col),
        #[allow(unreachable_patterns)]
        _ => "other".into(),
    }
}

fn value(r: &mut Rng, regime: u32) -> f64 {
    match regime {
        0 => r.int(-9, 9) as f64,
        1 => r.sym() * 4.0,
        2 => match r.below(4) {
            0 => 0.0,
            1 => -0.0,
            2 => r.int(-2, 2) as f64,
            _ => r.sym(),
        },
        3 => r.sym() * 2f64.powi(r.int(-60, 60) as i32),
        _ => r.int(1, 3) as f64,
    }
}

impl Env {
    fn vec(&mut self, kind: usize, n: usize) -> Vec<f64> {
        let regime = self.regime;
        let r = &mut self.rngs[kind];
        if regime == 2 && r.below(3) == 0 {
            return vec![0.0; n];
        }
        let mut v: Vec<f64> = (0..n).map(|_| value(r, regime)).collect();
        if regime == 4 && self.prev.len() == n && kind == 2 {
            match r.below(3) {
                0 => v = self.prev.clone(),
                1 => v = self.prev.iter().map(|x| -x).collect(),
                _ => {}
            }
        }
        if kind == 2 {
            self.prev = v.clone();
        }
        v
    }
}

impl<T: Val, D: DimName> NLProblem<T, D> for Env {
    fn sys<SA, SB>(
        &mut self,
        y: &Matrix<T, D, U1, SA>,
        f: &mut Matrix<T, D, U1, SB>,
    ) -> Result<(), Error>
    where
        SA: Storage<T, D, U1>,
        SB: StorageMut<T, D, U1>,
    {
        let o = outcome(self, 0);
        let v = self.vec(0, y.nrows());
        for (i, x) in v.iter().enumerate() {
            f[(i, 0)] = T::of(*x);
        }
        log(format!(
            "{{\"e\":\"sys\",\"y\":{},\"res\":{},\"out\":\"{}\"}}",
            hexv(y.iter().copied()),
            hexv(f.iter().copied()),
            o
        ));
        if o == "ok" {
            Ok(())
        } else {
            Err(error(&o))
        }
    }

    fn setup<SA, SB>(
        &mut self,
        y: &Matrix<T, D, U1, SA>,
        f: &Matrix<T, D, U1, SB>,
        jbad: bool,
    ) -> Result<bool, Error>
    where
        SA: Storage<T, D, U1>,
        SB: Storage<T, D, U1>,
    {
        let o = outcome(self, 1);
        log(format!(
            "{{\"e\":\"setup\",\"y\":{},\"f\":{},\"jbad\":{},\"out\":\"{}\"}}",
            hexv(y.iter().copied()),
            hexv(f.iter().copied()),
            if jbad { "true" } else { "false" },
            o
        ));
        match &o[..] {
            "true" => Ok(true),
            "false" => Ok(false),
            _ => Err(error(&o)),
        }
    }

    fn solve<SA, SB>(
        &mut self,
        y: &Matrix<T, D, U1, SA>,
        b: &mut Matrix<T, D, U1, SB>,
    ) -> Result<(), Error>
    where
        SA: Storage<T, D, U1>,
        SB: StorageMut<T, D, U1>,
    {
        let o = outcome(self, 2);
        let rhs = hexv(b.iter().copied());
        let v = self.vec(2, y.nrows());
        for (i, x) in v.iter().enumerate() {
            b[(i, 0)] = T::of(*x);
        }
        log(format!(
            "{{\"e\":\"lsolve\",\"y\":{},\"b\":{},\"x\":{},\"out\":\"{}\"}}",
            hexv(y.iter().copied()),
            rhs,
            hexv(b.iter().copied()),
            o
        ));
        if o == "ok" {
            Ok(())
        } else {
            Err(error(&o))
        }
    }

    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        solver: &NLS,
        y: &Matrix<T, D, U1, SA>,
        del: &Matrix<T, D, U1, SB>,
        tol: T,
        ewt: &Matrix<T, D, U1, SC>,
    ) -> Result<bool, Error>
    where
        NLS: NLSolver<T, D>,
        SA: Storage<T, D, U1>,
        SB: Storage<T, D, U1>,
        SC: Storage<T, D, U1>,
    {
        let o = outcome(self, 3);
        log(format!(
            "{{\"e\":\"ctest\",\"y\":{},\"del\":{},\"tol\":{},\"w\":{},\"cur\":{},\"ni\":{},\"nf\":{},\"out\":\"{}\"}}",
            hexv(y.iter().copied()),
            hexv(del.iter().copied()),
            hex(tol.f()),
            hexv(ewt.iter().copied()),
            solver.get_cur_iter(),
            solver.get_num_iters(),
            solver.get_num_conv_fails(),
            o
        ));
        match &o[..] {
            "conv" => Ok(true),
            "not" => Ok(false),
            _ => Err(error(&o)),
        }
    }
}

/// returns false when the session has to be abandoned
fn one_solve<T, D>(solver: &mut Newton<T, D>, s: &Session, k: usize, garbage: u64) -> bool
where
    T: Val,
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<T, D>,
{
    let sd = s.vseed.wrapping_mul(1_000_003).wrapping_add(k as u64);
    let mut r = Rng::new(sd);
    let n = D::dim();
    let y0 = OVector::<T, D>::from_fn(|_, _| T::of(value(&mut r, s.regime)));
    let w = OVector::<T, D>::from_fn(|i, _| {
        T::of(if s.regime == 2 && i == 0 { 0.0 } else { r.unit() * 10.0 })
    });
    let tol = T::of(match r.below(4) {
        0 => 0.0,
        1 => 1e300,
        2 => -1.0,
        _ => r.unit(),
    });
    let mut g = Rng::new(garbage);
    let mut y = OVector::<T, D>::from_fn(|_, _| T::of(g.sym() * 1e6));
    let mut env = Env {
        script: s.solves[k].clone(),
        pos: [0; 4],
        rngs: [0u64, 1, 2, 3].map(|i| Rng::new(sd.wrapping_mul(5).wrapping_add(i + 77))),
        regime: s.regime,
        persist: s.persist,
        calls: 0,
        budget: 60 * s.maxit.max(1).min(50) + 8 * s.maxit + 100,
        fatal: sd % 12,
        prev: vec![],
    };
    let _ = n;
    let call = s.solves[k].call;
    log(format!(
        "{{\"e\":\"start\",\"ni\":{},\"nf\":{},\"cur\":{},\"y0\":{},\"w\":{},\"tol\":{},\"call\":{}}}",
        solver.get_num_iters(),
        solver.get_num_conv_fails(),
        solver.get_cur_iter(),
        hexv(y0.iter().copied()),
        hexv(w.iter().copied()),
        hex(tol.f()),
        call
    ));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        solver.solve(&mut env, &y0, &mut y, &w, tol, call)
    }));
    let (out, go) = match &res {
        Ok(Ok(())) => ("ok".to_string(), true),
        Ok(Err(e)) => (code(e), true),
        Err(p) if p.is::<Runaway>() => ("runaway".into(), false),
        Err(_) => ("panic".into(), false),
    };
    log(format!(
        "{{\"e\":\"end\",\"y\":{},\"ni\":{},\"nf\":{},\"out\":\"{}\"}}",
        hexv(y.iter().copied()),
        solver.get_num_iters(),
        solver.get_num_conv_fails(),
        out
    ));
    go
}

fn session<T, D>(s: &Session)
where
    T: Val,
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<T, D>,
{
    let mut solver = <Newton<T, D> as NLSolver<T, D>>::new(s.maxit);
    let mut broken = false;
    for k in 0..s.solves.len() {
        if s.pair && k + 1 == s.solves.len() {
            log("@reused".into());
        }
        if !one_solve(&mut solver, s, k, s.vseed + 17 * k as u64) {
            broken = k + 1 < s.solves.len();
            break;
        }
    }
    if broken && s.pair {
        // the history itself did not finish (N01's business): nothing to compare
        log("@reused".into());
        log("@fresh".into());
    } else if s.pair {
        log("@fresh".into());
        let mut fresh = <Newton<T, D> as NLSolver<T, D>>::new(s.maxit);
        one_solve(&mut fresh, s, s.solves.len() - 1, s.vseed + 1_000_017);
    }
}

fn dispatch(s: &Session) {
    macro_rules! go {
        ($t:ty, $($n:literal),*) => {
            match s.dim { $($n => session::<$t, Const<$n>>(s),)* d => panic!("dim {}", d) }
        };
    }
    if s.prec == 32 {
        go!(f32, 1, 2, 3, 4, 5, 6, 8, 12, 17, 33, 63)
    } else {
        go!(f64, 1, 2, 3, 4, 5, 6, 8, 12, 17, 33, 63)
    }
}

fn render(head: &str, ev: &[String]) -> String {
    let a = ev.iter().position(|e| e == "@reused");
    let b = ev.iter().position(|e| e == "@fresh");
    match (a, b) {
        (None, _) => format!("{{{},\"ev\":[{}]}}", head, ev.join(",")),
        (Some(a), b) => {
            let b = b.unwrap_or(ev.len());
            format!(
                "{{{},\"pre\":[{}],\"reused\":[{}],\"fresh\":[{}]}}",
                head,
                ev[..a].join(","),
                ev[a + 1..b].join(","),
                ev.get(b + 1..).unwrap_or(&[]).join(",")
            )
        }
    }
}

fn main() {
    quiet_panics();
    let path = std::env::args().nth(1).expect("script file");
    let text = std::fs::read_to_string(path).unwrap();
    let mut sessions = vec![];
    for line in text.lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        match f.first() {
            Some(&"S") => sessions.push(Session {
                id: f[1].into(),
                prec: f[2].parse().unwrap(),
                dim: f[3].parse().unwrap(),
                maxit: f[4].parse().unwrap(),
                vseed: f[5].parse().unwrap(),
                regime: f[6].parse().unwrap(),
                persist: f[7] == "1",
                pair: f[8] == "1",
                solves: vec![],
            }),
            Some(&"V") => {
                let st = |s: &str| -> Vec<String> {
                    if s == "-" {
                        vec![]
                    } else {
                        s.split(',').map(|x| x.to_string()).collect()
                    }
                };
                sessions.last_mut().unwrap().solves.push(SolveScript {
                    call: f[1] == "1",
                    streams: [st(f[2]), st(f[3]), st(f[4]), st(f[5])],
                })
            }
            _ => {}
        }
    }
    watchdog(20, || {
        let h = HEAD.lock().unwrap().clone();
        let mut l = LOG.lock().unwrap().clone();
        l.push("{\"e\":\"end\",\"y\":[],\"ni\":0,\"nf\":0,\"out\":\"runaway\"}".into());
        println!("{}", render(&h, &l));
    });
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out);
    for s in &sessions {
        tick();
        LOG.lock().unwrap().clear();
        let head = format!("\"id\":\"{}\",\"prec\":{},\"maxit\":{}", s.id, s.prec, s.maxit);
        *HEAD.lock().unwrap() = head.clone();
        dispatch(s);
        let l = LOG.lock().unwrap().clone();
        writeln!(out, "{}", render(&head, &l)).unwrap();
        out.flush().unwrap();
    }
}
