//! Evaluates the sample problems at given points.
//! input lines: id roberts|crank t cj y.. p..   (hex bit patterns)
use hida::*;
use ida::sample_problems::{Roberts, SlCrank};
use ida::traits::*;
use ndarray::prelude::*;
use std::io::Write;

fn main() {
    if std::env::var("LOUD").is_err() { hcore::quiet_panics(); }
    hcore::watchdog(20, || println!("{{\"hang\":true}}"));
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("input")).unwrap();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in text.lines() {
        hcore::tick();
        let f: Vec<&str> = line.split_whitespace().collect();
        let v: Vec<f64> = f[2..].iter().map(|s| f64::from_bits(u64::from_str_radix(s, 16).unwrap())).collect();
        let (t, cj) = (v[0], v[1]);
        let n = (v.len() - 2) / 2;
        let (y, p) = (Array1::from_iter(v[2..2 + n].iter().cloned()), Array1::from_iter(v[2 + n..].iter().cloned()));
        let r = std::panic::catch_unwind(|| {
            // nothing that was there before may matter
            let mut r = Array1::from_iter((0..n).map(|i| 1e6 + i as f64 * t));
            if f[1] == "roberts" {
                let s = Roberts {};
                s.res(t, y.view(), p.view(), r.view_mut());
                let junk = Array1::from_iter((0..n).map(|i| -7.0 * i as f64));
                let mut j = Array2::<f64>::zeros((n, n));
                j.fill(cj * 3.0 + 5e7);
                s.jac(t, cj, y.view(), p.view(), junk.view(), j.view_mut());
                let mut g = Array1::from_iter((0..s.num_roots()).map(|_| 77.0));
                s.root(t, y.view(), p.view(), g.view_mut());
                let rows: Vec<String> = (0..n).map(|i| hv(&(0..n).map(|k| j[[i, k]]).collect::<Vec<_>>())).collect();
                (s.model_size(), s.num_roots(), av1(&r), format!("[{}]", rows.join(",")), av1(&g))
            } else {
                let s = SlCrank::default();
                s.res(t, y.view(), p.view(), r.view_mut());
                (s.model_size(), 0, av1(&r), "[]".into(), vec![])
            }
        });
        let (n, nr, r, j, g, o) = match r {
            Ok((n, nr, r, j, g)) => (n, nr, r, j, g, "ok"),
            Err(_) => (0, 0, vec![], "[]".to_string(), vec![], "panic"),
        };
        writeln!(
            out,
            r#"{{"id":"{}","e":"{}","n":{},"nroots":{},"cj":{},"y":{},"p":{},"r":{},"j":{},"g":{},"out":"{}"}}"#,
            f[0], f[1], n, nr, hx(cj), hv(&av1(&y)), hv(&av1(&p)), hv(&r), j, hv(&g), o
        )
        .unwrap();
        out.flush().unwrap();
    }
}
fn av1(a: &Array1<f64>) -> Vec<f64> {
    a.iter().cloned().collect()
}
