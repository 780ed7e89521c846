//! Scenarios in (one JSON object per line), traces out (likewise).
use hida::*;
use ida::nonlinear::{NLSolver, Newton};
use ida::{Ida, IdaSolveStatus, IdaTask};
use ndarray::prelude::*;
use serde_json::Value;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hexbits(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).unwrap())
}

/// Times may be absolute or relative to where the integrator is.
fn time<N: NLSolver<Prob>>(ida: &Ida<Prob, LogLs, N, Tol>, v: &Value, last: f64, unit: f64) -> f64 {
    if let Some(x) = v.as_f64() {
        return x / unit;
    }
    if let Some(x) = v["bits"].as_str() {
        return hexbits(x) / unit;
    }
    let (tn, hh, hu) = (ida.get_current_time(), ida.get_current_setp(), ida.get_last_step());
    let f = |k: &str| v[k].as_f64();
    if let Some(x) = f("hh") {
        tn + x * hh
    } else if let Some(x) = f("hu") {
        tn - x * hu
    } else if let Some(x) = f("ret") {
        last + x / unit
    } else if let Some(x) = f("tn") {
        tn + x / unit
    } else if let Some(x) = f("ulp") {
        // x ulps of tn from tn
        tn + unit.signum() * x * f64::EPSILON * tn.abs()
    } else {
        panic!("time {}", v)
    }
}

fn state<N: NLSolver<Prob>>(ida: &Ida<Prob, LogLs, N, Tol>, prob: &Prob, tret: f64) -> String {
    let yy: Vec<f64> = ida.get_yy().iter().cloned().collect();
    let yp: Vec<f64> = ida.get_yp().iter().cloned().collect();
    let ir: Vec<String> = ida.get_root_info().iter().map(|x| format!("{}", *x as i64)).collect();
    format!(
        concat!(
            r#""tret":{},"yy":{},"yp":{},"nst":{},"nre":{},"nje":{},"nset":{},"netf":{},"ncfn":{},"nni":{},"nge":{},"#,
            r#""ku":{},"kk":{},"hu":{},"hh":{},"tn":{},"h0u":{},"tolsf":{},"ir":[{}],"g":{},"nlr":{},"nli":{}"#
        ),
        hx(tret), hv(&yy), hv(&yp), ida.get_num_steps(), ida.get_num_res_evals(), ida.get_num_jac_evals(),
        ida.get_num_lin_solv_setups(), ida.get_num_err_test_fails(), ida.get_num_nonlin_solv_conv_fails(),
        ida.get_num_nonlin_solv_iters(), ida.get_num_g_evals(), ida.get_last_order(), ida.get_current_order(),
        hx(ida.get_last_step()), hx(ida.get_current_setp()), hx(ida.get_current_time()),
        hx(ida.get_actual_init_step()), hx(ida.get_tol_scale_factor()), ir.join(","), hv(&prob.g(tret, &yy)),
        ida.get_num_lin_res_evals(), ida.get_num_lin_iters()
    )
}

/// the numbers an error carries
fn payload(text: &str) -> String {
    let f = |name: &str| {
        let key = format!(" {}: ", name);
        let v = text.find(&key).and_then(|i| {
            let rest = &text[i + key.len()..];
            rest[..rest.find(|c: char| c == ',' || c == ' ' || c == '}').unwrap_or(rest.len())].parse::<f64>().ok()
        });
        hx(v.unwrap_or(f64::NAN))
    };
    format!(r#"{{"t":{},"tdiff":{},"tcurr":{},"tstop":{}}}"#, f("t"), f("tdiff"), f("tcurr"), f("tstop"))
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let s = e
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into());
    s.chars().filter(|c| c.is_alphanumeric() || " _:.".contains(*c)).take(80).collect()
}

/// A factor [sign, exponent of two]; serde_json does not read every double exactly.
fn unit(v: &Value) -> f64 {
    v.as_array().map(|a| a[0].as_f64().unwrap() * 2f64.powi(a[1].as_i64().unwrap() as i32)).unwrap_or(1.0)
}
fn units(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(unit).collect()
}

fn problem(sc: &Value) -> Prob {
    let p = &sc["prob"];
    let roots = p["roots"].as_array().cloned().unwrap_or_default().iter().map(root).collect();
    Prob {
        kind: p["kind"].as_str().unwrap().into(),
        n: fvec(&sc["y0"]).len(),
        roots,
        made: p["made"]
            .as_array()
            .cloned()
            .unwrap_or_default()
            .iter()
            .map(|v| {
                let c = fvec(&v["c"]);
                let f = |k: &str| v[k].as_f64().unwrap();
                Made {
                    c: [c[0], c[1], c[2], c[3], c[4], c[5], c[6]],
                    l: f("l"),
                    k: f("k"),
                    m: f("m"),
                    alg: v["alg"].as_bool().unwrap(),
                }
            })
            .collect(),
        mirror: sc["mirror"].as_bool().unwrap_or(false),
        tu: unit(&sc["tu"]),
        yu: if sc["yu"].is_array() { units(&sc["yu"]) } else { vec![1.0; fvec(&sc["y0"]).len()] },
        ru: unit(&sc["ru"]),
        gu: if sc["gu"].is_array() { units(&sc["gu"]) } else { vec![1.0; p["roots"].as_array().map(|a| a.len()).unwrap_or(0)] },
    }
}
/// Initial values in the units of the run.
fn initial(sc: &Value) -> (Vec<f64>, Vec<f64>) {
    let p = problem(sc);
    let s = if p.mirror { -p.tu } else { p.tu };
    let y = fvec(&sc["y0"]).iter().zip(&p.yu).map(|(a, u)| a / u).collect();
    let yp = fvec(&sc["yp0"]).iter().zip(&p.yu).map(|(a, u)| s * a / u).collect();
    (y, yp)
}

/// Components the error tests look at.
fn mask(sc: &Value) -> Vec<bool> {
    match sc["mask"].as_array() {
        Some(a) => a.iter().map(|x| x.as_bool().unwrap()).collect(),
        None => vec![true; fvec(&sc["y0"]).len()],
    }
}

fn run<N: NLSolver<Prob>>(sc: &Value) {
    let mirror = sc["mirror"].as_bool().unwrap_or(false);
    let (y0, yp0) = initial(sc);
    let prob = problem(sc);
    // one unit of the run's time
    let unit = if mirror { -prob.tu } else { prob.tu };
    let t = &sc["tol"];
    let at = fvec(&t["a"]);
    let at: Vec<f64> = at.iter().zip(&prob.yu).map(|(a, u)| a / u.abs()).collect();
    let rt = t["r"].as_f64().unwrap();
    let tol = match t["k"].as_str().unwrap() {
        "ss" => Tol::SS(ida::tol_control::TolControlSS::new(rt, at[0])),
        "sv" => Tol::SV(ida::tol_control::TolControlSV::new(rt, Array1::from_iter(at.iter().cloned()))),
        _ => Tol::Bad(
            ida::tol_control::TolControlSS::new(rt, at[0]),
            t["w"].as_f64().unwrap_or(f64::NAN),
            std::cell::Cell::new(t["n"].as_i64().unwrap()),
        ),
    };
    let mut ida: Ida<Prob, LogLs, N, Tol> =
        Ida::new(prob.clone(), Array1::from_iter(y0.iter().cloned()), Array1::from_iter(yp0.iter().cloned()), tol);
    #[cfg(ida_verif)]
    {
        if sc["mask"].is_array() {
            ida.set_suppress_alg(Array1::from_iter(mask(sc).into_iter()));
        }
    }
    let mut last = 0.0f64;
    for c in sc["calls"].as_array().unwrap() {
        for _ in 0..c["rep"].as_u64().unwrap_or(1) {
            let x = c["x"].as_bool().unwrap_or(false);
            ctx(|c| c.rootrun = 0);
            let r = match c["c"].as_str().unwrap() {
                "solve" => {
                    let tout = time(&ida, &c["t"], last, unit);
                    let task = if c["m"] == "O" { IdaTask::OneStep } else { IdaTask::Normal };
                    log(format!(r#"{{"e":"solve","m":"{}","tout":{},"x":{}}}"#, c["m"].as_str().unwrap(), hx(tout), x));
                    let mut tret = f64::NAN;
                    hcore::tick();
                    let mut msg = String::new();
                    let r = catch_unwind(AssertUnwindSafe(|| ida.solve(tout, &mut tret, task)));
                    let pay = payload(&match &r {
                        Ok(Err(e)) => format!("{:?}", e),
                        _ => String::new(),
                    });
                    let out = match r {
                        Ok(Ok(IdaSolveStatus::Success)) => "success".to_string(),
                        Ok(Ok(IdaSolveStatus::TStop)) => "tstop".into(),
                        Ok(Ok(IdaSolveStatus::Root)) => "root".into(),
                        Ok(Ok(IdaSolveStatus::ContinueSteps)) => "continue".into(),
                        Ok(Err(e)) => format!("err:{}", name_of(&format!("{:?}", e))),
                        Err(e) => {
                            msg = panic_text(e);
                            "panic".into()
                        }
                    };
                    log(format!(r#"{{"e":"ret","x":{},"out":"{}","msg":"{}","pay":{},{}}}"#, x, out, msg, pay, state(&ida, &prob, tret)));
                    if !tret.is_nan() && !x {
                        last = tret;
                    }
                    out != "panic"
                }
                "getsol" | "dky" => {
                    let th = time(&ida, &c["th"], last, unit);
                    let k = match c["k"]["ku"].as_u64() {
                        Some(d) => ida.get_last_order() + d as usize,
                        None => c["k"].as_u64().unwrap_or(0) as usize,
                    };
                    let mut d = Array1::<f64>::from_elem(y0.len(), f64::NAN);
                    let what = c["c"].as_str().unwrap();
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        if what == "dky" {
                            ida.get_dky(th, k, &mut d)
                        } else {
                            ida.get_solution(th)
                        }
                    }));
                    let pay = payload(&match &r {
                        Ok(Err(e)) => format!("{:?}", e),
                        _ => String::new(),
                    });
                    let out = match r {
                        Ok(Ok(())) => "ok".to_string(),
                        Ok(Err(e)) => format!("err:{}", name_of(&format!("{:?}", e))),
                        Err(_) => "panic".to_string(),
                    };
                    log(format!(
                        r#"{{"e":"{}","x":{},"th":{},"k":{},"out":"{}","d":{},"pay":{},{}}}"#,
                        what, x, hx(th), k, out, hv(d.iter()), pay, state(&ida, &prob, th)
                    ));
                    out != "panic"
                }
                #[cfg(ida_verif)]
                "tstop" => {
                    let ts = time(&ida, &c["t"], last, unit);
                    ida.set_stop_time(ts);
                    log(format!(r#"{{"e":"tstop","x":{},"t":{}}}"#, x, hx(ts)));
                    true
                }
                w => panic!("call {}", w),
            };
            if !r {
                return;
            }
        }
    }
}

fn root(v: &Value) -> RootFn {
    let f = |i: usize| v[i].as_f64().unwrap();
    match v[0].as_str().unwrap() {
        "poly" => RootFn::Poly(f(1), fvec(&v[2])),
        "comp" => RootFn::Comp(v[1].as_u64().unwrap() as usize, f(2)),
        "window" => RootFn::Window(f(1), fvec(&v[2]), f(3), f(4)),
        "late" => RootFn::Late(f(1)),
        "flat" => RootFn::Flat(f(1), f(2), f(3)),
        k => panic!("root {}", k),
    }
}

fn main() {
    hcore::quiet_panics();
    let now = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let now2 = now.clone();
    hcore::watchdog(20, move || {
        eprintln!("HANG {}", now2.lock().unwrap());
        std::process::exit(3)
    });
    let path = std::env::args().nth(1).unwrap();
    let f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    for line in f.lines() {
        let sc: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let id = sc["id"].as_str().unwrap().to_string();
        *now.lock().unwrap() = id.clone();
        hcore::tick();
        ctx(|c| {
            *c = Ctx::new();
            c.rng = hcore::Rng::new(sc["seed"].as_u64().unwrap_or(1));
            c.budget = sc["budget"].as_u64().unwrap_or(4000) as usize;
            c.sing = fvec(&sc["sing"]).iter().map(|x| *x as usize).collect();
            c.script = sc["script"].as_array().map(|a| a.iter().map(Step::of).collect()).unwrap_or_default();
            let t = &sc["tail"];
            let p = |k: &str| t[k].as_f64().unwrap_or(0.0);
            c.tail = Tail {
                p_rec: p("rec"),
                p_fatal: p("fatal"),
                p_ct: p("ct"),
                p_refresh: p("refresh"),
                c: fvec(&t["c"]),
                d: t["d"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().into()).collect()).unwrap_or_default(),
            };
            let y0 = initial(&sc).0;
            let n = y0.len();
            c.hist = vec![Pt { h: 0.0, y: y0, ee: vec![0.0; n] }];
        });
        match sc["nls"].as_str().unwrap() {
            "script" => run::<ScriptNls>(&sc),
            "newton" => run::<SpyNls<Prob>>(&sc),
            _ => run::<Newton<Prob>>(&sc),
        }
        let mut ev = ctx(|c| std::mem::take(&mut c.ev));
        if sc["only"].is_array() {
            // keep only the named kinds of event
            let keep: Vec<String> =
                sc["only"].as_array().unwrap().iter().map(|x| format!(r#"{{"e":"{}""#, x.as_str().unwrap())).collect();
            ev.retain(|e| keep.iter().any(|k| e.starts_with(k.as_str())));
        }
        let t = &sc["tol"];
        writeln!(
            out,
            r#"{{"id":"{}","nls":"{}","mirror":{},"mask":[{}],"g0":{},"y0":{},"yp0":{},"tolk":"{}","rtol":{},"atol":{},"nroots":{},"ev":[{}]}}"#,
            id,
            sc["nls"].as_str().unwrap(),
            sc["mirror"].as_bool().unwrap_or(false),
            mask(&sc).iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            hv(&problem(&sc).g(0.0, &initial(&sc).0)),
            hv(&initial(&sc).0),
            hv(&initial(&sc).1),
            t["k"].as_str().unwrap(),
            hx(t["r"].as_f64().unwrap()),
            hv(&fvec(&t["a"])),
            sc["prob"]["roots"].as_array().map(|a| a.len()).unwrap_or(0),
            ev.join(",")
        )
        .unwrap();
    }
}
