//! Evaluates the integrator's norms on given vectors.
//! input lines: id kind n x.. w.. mask(0/1)..   (hex bit patterns)
//! kind: p plain, m masked, v plain on views, q masked on views, i / j the integrator's own (plain / masked)
use hida::*;
use ida::{Ida, NormRms, NormRmsMasked};
use ndarray::prelude::*;
use std::io::Write;

fn main() {
    if std::env::var("LOUD").is_err() { hcore::quiet_panics(); }
    hcore::watchdog(20, || println!("{{\"hang\":true}}"));
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("input")).unwrap();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in text.lines() {
        hcore::tick();
        let f: Vec<&str> = line.split_whitespace().collect();
        let n: usize = f[2].parse().unwrap();
        let p = |s: &str| f64::from_bits(u64::from_str_radix(s, 16).unwrap());
        let x: Vec<f64> = f[3..3 + n].iter().map(|s| p(s)).collect();
        let w: Vec<f64> = f[3 + n..3 + 2 * n].iter().map(|s| p(s)).collect();
        let m: Vec<bool> = f[3 + 2 * n..3 + 3 * n].iter().map(|s| *s == "1").collect();
        let masked = matches!(f[1], "m" | "q" | "j");
        let r = std::panic::catch_unwind(|| {
            let a = Array1::from_iter(x.iter().cloned());
            let b = Array1::from_iter(w.iter().cloned());
            let id = Array1::from_iter(m.iter().cloned());
            let v: f64 = match f[1] {
                "p" => a.norm_wrms(&b),
                "m" => a.norm_wrms_masked(&b, &id),
                "v" => a.view().norm_wrms(&b.view()),
                "q" => a.view().norm_wrms_masked(&b.view(), &id.view()),
                k => {
                    let prob = Prob { kind: "script".into(), n, roots: vec![], made: vec![], mirror: false, tu: 1.0, yu: vec![1.0; n], ru: 1.0, gu: vec![] };
                    let tol = Tol::SS(ida::tol_control::TolControlSS::new(1e-3, 1e-3));
                    let z = Array1::from_iter((0..n).map(|_| 1.0));
                    let mut ida: Ida<Prob, LogLs, ScriptNls, Tol> = Ida::new(prob, z.clone(), z, tol);
                    #[cfg(ida_verif)]
                    ida.set_suppress_alg(id);
                    ida.wrms_norm(&a, &b, k == "j")
                }
            };
            (v, a.iter().cloned().collect::<Vec<f64>>(), b.iter().cloned().collect::<Vec<f64>>())
        });
        let (v, x2, w2, o) = match r {
            Ok((v, x2, w2)) => (v, x2, w2, "ok"),
            Err(_) => (0.0, vec![], vec![], "panic"),
        };
        let full: Vec<bool> = if masked { m } else { vec![true; n] };
        writeln!(
            out,
            r#"{{"id":"{}","x":{},"w":{},"mask":[{}],"v":{},"x2":{},"w2":{},"out":"{}"}}"#,
            f[0], hv(&x), hv(&w), full.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","), hx(v), hv(&x2), hv(&w2), o
        )
        .unwrap();
        out.flush().unwrap();
    }
}
