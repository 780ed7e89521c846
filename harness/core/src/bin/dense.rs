//! Runs sessions of setups and solves on `linear::Dense` and records them.
//!
//! usage: dense SESSIONS > TRACES
//!   D id scalar(q|d|s) n mode(plain|view|step) judge(0|1)
//!   A tokens (row major)          setup
//!   B tokens | xseed tol          solve
use hcore::rational::{Q, RatOverflow};
use hcore::{quiet_panics, tick, watchdog, Rng};
use linear::{Dense, Error, LSolver};
use nalgebra::{
    allocator::Allocator, Const, DMatrix, DefaultAllocator, DimName, OMatrix, OVector, RealField,
};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

trait Sc: RealField + Copy {
    fn parse(s: &str) -> Self;
    fn show(self) -> String;
    fn garbage(r: &mut Rng) -> Self;
    const U: &'static str;
}
impl Sc for f64 {
    fn parse(s: &str) -> f64 {
        f64::from_bits(u64::from_str_radix(s, 16).unwrap())
    }
    fn show(self) -> String {
        format!("\"{:016x}\"", self.to_bits())
    }
    fn garbage(r: &mut Rng) -> f64 {
        match r.below(4) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => 0.0,
            _ => r.sym() * 1e9,
        }
    }
    const U: &'static str = "1/20000000000000";
}
impl Sc for f32 {
    fn parse(s: &str) -> f32 {
        <f64 as Sc>::parse(s) as f32
    }
    fn show(self) -> String {
        (self as f64).show()
    }
    fn garbage(r: &mut Rng) -> f32 {
        <f64 as Sc>::garbage(r) as f32
    }
    const U: &'static str = "1/1000000";
}
impl Sc for Q {
    fn parse(s: &str) -> Q {
        match s.find('/') {
            None => Q::int(s.parse().unwrap()),
            Some(k) => Q::new(s[..k].parse().unwrap(), s[k + 1..].parse().unwrap()),
        }
    }
    fn show(self) -> String {
        format!("\"{}\"", self.hex())
    }
    fn garbage(r: &mut Rng) -> Q {
        Q::int(r.int(-1000, 1000))
    }
    const U: &'static str = "0/1";
}

enum Op {
    A(Vec<String>),
    B(Vec<String>, u64),
}
struct Sess {
    id: String,
    sc: String,
    n: usize,
    mode: String,
    judge: bool,
    ops: Vec<Op>,
}

struct Skip;

/// run code under test; a panic is an outcome, a rational overflow abandons the session
fn guard<R>(f: impl FnOnce() -> R) -> Result<Option<R>, Skip> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(Some(r)),
        Err(p) if p.is::<RatOverflow>() => Err(Skip),
        Err(_) => Ok(None),
    }
}

fn mat<T: Sc, D: DimName>(m: &OMatrix<T, D, D>) -> String
where
    DefaultAllocator: Allocator<T, D, D>,
{
    let rows: Vec<String> = (0..D::dim())
        .map(|i| {
            let r: Vec<String> = (0..D::dim()).map(|j| m[(i, j)].show()).collect();
            format!("[{}]", r.join(","))
        })
        .collect();
    format!("[{}]", rows.join(","))
}
fn vecs<T: Sc, D: DimName>(v: &OVector<T, D>) -> String
where
    DefaultAllocator: Allocator<T, D>,
{
    let r: Vec<String> = (0..D::dim()).map(|i| v[i].show()).collect();
    format!("[{}]", r.join(","))
}

/// setup through the chosen kind of storage; returns (outcome, column, matrix, frame)
fn setup<T, D>(
    s: &mut Dense<D>,
    a: &OMatrix<T, D, D>,
    mode: &str,
) -> Result<(String, usize, OMatrix<T, D, D>, &'static str), Skip>
where
    T: Sc,
    D: DimName,
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D> + Allocator<T, D, D>,
{
    let n = D::dim();
    let mut m = a.clone();
    let mut frame = "ok";
    let r = if mode == "plain" {
        guard(|| <Dense<D> as LSolver<T, D>>::setup(s, &mut m))?
    } else {
        let st = if mode == "view" { 1 } else { 2 };
        let off = 1;
        let sz = st * n + 2;
        let sentinel = T::parse_sentinel();
        let mut big = DMatrix::<T>::from_element(sz, sz, sentinel);
        for i in 0..n {
            for j in 0..n {
                big[(off + st * i, off + st * j)] = a[(i, j)];
            }
        }
        let r = if st == 1 {
            let mut v = big.generic_view_mut((off, off), (D::name(), D::name()));
            guard(|| <Dense<D> as LSolver<T, D>>::setup(s, &mut v))?
        } else {
            let mut v = big.generic_view_with_steps_mut((off, off), (D::name(), D::name()), (1, 1));
            guard(|| <Dense<D> as LSolver<T, D>>::setup(s, &mut v))?
        };
        for i in 0..sz {
            for j in 0..sz {
                let inside = i >= off && j >= off && (i - off) % st == 0 && (j - off) % st == 0
                    && (i - off) / st < n && (j - off) / st < n;
                if inside {
                    m[((i - off) / st, (j - off) / st)] = big[(i, j)];
                } else if big[(i, j)] != sentinel {
                    frame = "touched";
                }
            }
        }
        r
    };
    let (out, col) = match r {
        None => ("panic".to_string(), 0),
        Some(Ok(())) => ("ok".into(), 0),
        Some(Err(Error::LUFactFail { col })) => ("fail".into(), col),
        #[allow(unreachable_patterns)]
        Some(Err(_)) => ("other".into(), 0),
    };
    Ok((out, col, m, frame))
}

trait Sentinel {
    fn parse_sentinel() -> Self;
}
impl<T: Sc> Sentinel for T {
    fn parse_sentinel() -> T {
        T::one() + T::one() + T::one()
    }
}

struct Solved {
    out: String,
    x: String,
    b2: String,
    lu2: String,
}

fn solve<T, D>(
    s: &Dense<D>,
    lu: &OMatrix<T, D, D>,
    b: &OVector<T, D>,
    xseed: u64,
    mode: &str,
) -> Result<Solved, Skip>
where
    T: Sc,
    D: DimName,
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D> + Allocator<T, D, D>,
{
    let mut r = Rng::new(xseed);
    let lu = lu.clone();
    let b = b.clone();
    let n = D::dim();
    let mut x = OVector::<T, D>::from_fn(|_, _| T::garbage(&mut r));
    let tol = T::garbage(&mut r);
    let res = if mode == "plain" {
        guard(|| s.solve(&lu, &mut x, &b, tol))?
    } else {
        let mut big = DMatrix::<T>::from_fn(n + 2, 3, |_, _| T::garbage(&mut r));
        let res = {
            let mut v = big.generic_view_mut((1, 1), (D::name(), Const::<1>));
            guard(|| s.solve(&lu, &mut v, &b, tol))?
        };
        for i in 0..n {
            x[i] = big[(i + 1, 1)];
        }
        res
    };
    Ok(Solved {
        out: match res {
            None => "panic".into(),
            Some(Ok(())) => "ok".into(),
            Some(Err(_)) => "error".into(),
        },
        x: vecs(&x),
        b2: vecs(&b),
        lu2: mat(&lu),
    })
}

static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
static HEAD: Mutex<String> = Mutex::new(String::new());

fn session<T, D>(se: &Sess) -> Result<(), Skip>
where
    T: Sc,
    D: DimName,
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D> + Allocator<T, D, D>,
{
    let new = || <Dense<D> as LSolver<T, D>>::new();
    let mut s = new();
    let mut setups: Vec<OMatrix<T, D, D>> = vec![];
    let mut cur: Option<(OMatrix<T, D, D>, Dense<D>, OMatrix<T, D, D>, bool)> = None;
    for op in &se.ops {
        match op {
            Op::A(t) => {
                let n = D::dim();
                let a = OMatrix::<T, D, D>::from_fn(|i, j| T::parse(&t[i * n + j]));
                *PENDING.lock().unwrap() = format!(
                    "{{\"e\":\"setup\",\"A\":{},\"LU\":[],\"out\":\"hang\",\"col\":0,\"frame\":\"ok\",\"fLU\":[],\"fout\":\"hang\",\"fcol\":0}}",
                    mat(&a));
                let (out, col, m, frame) = setup(&mut s, &a, &se.mode)?;
                let mut f = new();
                let (fout, fcol, fm, _) = setup(&mut f, &a, "plain")?;
                LOG.lock().unwrap().push(format!(
                    "{{\"e\":\"setup\",\"A\":{},\"LU\":{},\"out\":\"{}\",\"col\":{},\"frame\":\"{}\",\"fLU\":{},\"fout\":\"{}\",\"fcol\":{}}}",
                    mat(&a), mat(&m), out, col, frame, mat(&fm), fout, fcol));
                setups.push(a);
                cur = Some((m, f, fm, out == "ok" && fout == "ok"));
            }
            Op::B(t, seed) => {
                let b = OVector::<T, D>::from_fn(|i, _| T::parse(&t[i]));
                let (m, f, fm, ok) = cur.as_ref().unwrap();
                if !ok {
                    continue;
                }
                let one = solve(&s, m, &b, *seed, &se.mode)?;
                let alt = solve(&s, m, &b, seed + 1, "plain")?;
                let fr = solve(f, fm, &b, seed + 2, "plain")?;
                // all setups of the session, but only this solve
                let mut q = new();
                let mut qm = None;
                for a in &setups {
                    qm = Some(setup(&mut q, a, "plain")?.2);
                }
                let solo = solve(&q, &qm.unwrap(), &b, seed + 3, "plain")?;
                LOG.lock().unwrap().push(format!(
                    "{{\"e\":\"solve\",\"b\":{},\"x\":{},\"out\":\"{}\",\"b2\":{},\"LU2\":{},\"alt\":{},\"solo\":{},\"fx\":{},\"fout\":\"{}\"}}",
                    vecs(&b), one.x, one.out, one.b2, one.lu2, alt.x, solo.x, fr.x, fr.out));
            }
        }
    }
    Ok(())
}

static PENDING: Mutex<String> = Mutex::new(String::new());

fn dispatch(se: &Sess) -> Result<(), Skip> {
    macro_rules! go {
        ($t:ty, $($n:literal),*) => {
            match se.n { $($n => session::<$t, Const<$n>>(se),)* d => panic!("dim {}", d) }
        };
    }
    match &se.sc[..] {
        "q" => go!(Q, 1, 2, 3, 4, 5, 6),
        "d" => go!(f64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24, 33, 50, 65, 130, 258),
        _ => go!(f32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24, 33, 50, 65),
    }
}

fn main() {
    // large matrices live on the stack
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(work).unwrap();
    t.join().unwrap();
}

fn work() {
    quiet_panics();
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("session file")).unwrap();
    let mut ses: Vec<Sess> = vec![];
    for line in text.lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        match f.first() {
            Some(&"D") => ses.push(Sess {
                id: f[1].into(),
                sc: f[2].into(),
                n: f[3].parse().unwrap(),
                mode: f[4].into(),
                judge: f[5] == "1",
                ops: vec![],
            }),
            Some(&"A") => ses.last_mut().unwrap().ops.push(Op::A(f[1..].iter().map(|s| s.to_string()).collect())),
            Some(&"B") => {
                let k = f.iter().position(|x| *x == "|").unwrap();
                ses.last_mut().unwrap().ops.push(Op::B(
                    f[1..k].iter().map(|s| s.to_string()).collect(),
                    f[k + 1].parse().unwrap(),
                ))
            }
            _ => {}
        }
    }
    watchdog(20, || {
        let mut l = LOG.lock().unwrap().clone();
        l.push(PENDING.lock().unwrap().clone());
        println!("{{{},\"ev\":[{}]}}", HEAD.lock().unwrap(), l.join(","));
    });
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for s in &ses {
        tick();
        LOG.lock().unwrap().clear();
        let u = match &s.sc[..] {
            "q" => Q::U,
            "d" => <f64 as Sc>::U,
            _ => <f32 as Sc>::U,
        };
        *HEAD.lock().unwrap() = format!("\"id\":\"{}\",\"u\":\"{}\",\"judge\":{}", s.id, u, s.judge);
        match dispatch(s) {
            Ok(()) => {
                let l = LOG.lock().unwrap().join(",");
                writeln!(out, "{{{},\"ev\":[{}]}}", HEAD.lock().unwrap(), l).unwrap();
                out.flush().unwrap();
            }
            Err(Skip) => {
                writeln!(out, "{{\"id\":\"{}\",\"skip\":true}}", s.id).unwrap();
            }
        }
    }
}
