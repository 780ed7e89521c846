//! Evaluates the weighted RMS norm of the nonlinear crate on given vectors.
//! input lines: id kind n x.. w..   (hex bit patterns; kind s = static, d = dynamic, v = view)
use hcore::{hex, hexv, quiet_panics, tick, watchdog};
use nalgebra::{DMatrix, DVector, SVector};
use nonlinear::norm_wrms::NormWRMS;
use std::io::Write;

fn stat<const N: usize>(x: &[f64], w: &[f64]) -> (f64, Vec<f64>, Vec<f64>) {
    let a = SVector::<f64, N>::from_column_slice(x);
    let b = SVector::<f64, N>::from_column_slice(w);
    (a.norm_wrms(&b), a.iter().copied().collect(), b.iter().copied().collect())
}

fn main() {
    quiet_panics();
    watchdog(20, || println!("{{\"hang\":true}}"));
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("input")).unwrap();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in text.lines() {
        tick();
        let f: Vec<&str> = line.split_whitespace().collect();
        let n: usize = f[2].parse().unwrap();
        let p = |s: &str| f64::from_bits(u64::from_str_radix(s, 16).unwrap());
        let x: Vec<f64> = f[3..3 + n].iter().map(|s| p(s)).collect();
        let w: Vec<f64> = f[3 + n..3 + 2 * n].iter().map(|s| p(s)).collect();
        let r = std::panic::catch_unwind(|| match f[1] {
            "s" => match n {
                1 => stat::<1>(&x, &w),
                2 => stat::<2>(&x, &w),
                3 => stat::<3>(&x, &w),
                4 => stat::<4>(&x, &w),
                5 => stat::<5>(&x, &w),
                7 => stat::<7>(&x, &w),
                16 => stat::<16>(&x, &w),
                33 => stat::<33>(&x, &w),
                65 => stat::<65>(&x, &w),
                _ => panic!("harness: no static size {}", n),
            },
            "d" => {
                let a = DVector::from_column_slice(&x);
                let b = DVector::from_column_slice(&w);
                (a.norm_wrms(&b), a.iter().copied().collect(), b.iter().copied().collect())
            }
            _ => {
                // columns of larger matrices
                let a = DMatrix::from_fn(n + 2, 3, |i, j| if j == 1 && i >= 1 && i <= n { x[i - 1] } else { 1e30 });
                let b = DMatrix::from_fn(n + 1, 2, |i, j| if j == 1 && i < n { w[i] } else { 1e30 });
                let av = a.view((1, 1), (n, 1));
                let bv = b.rows(0, n);
                let bv = bv.column(1);
                let r = av.column(0).norm_wrms(&bv);
                let o = (r, av.iter().copied().collect(), bv.iter().copied().collect());
                o
            }
        });
        match r {
            Ok((v, x2, w2)) => writeln!(
                out,
                "{{\"id\":\"{}\",\"x\":{},\"w\":{},\"v\":{},\"x2\":{},\"w2\":{},\"out\":\"ok\"}}",
                f[0],
                hexv(x.iter().copied()),
                hexv(w.iter().copied()),
                hex(v),
                hexv(x2.into_iter()),
                hexv(w2.into_iter())
            )
            .unwrap(),
            Err(_) => writeln!(
                out,
                "{{\"id\":\"{}\",\"x\":{},\"w\":{},\"v\":\"0000000000000000\",\"x2\":[],\"w2\":[],\"out\":\"panic\"}}",
                f[0],
                hexv(x.iter().copied()),
                hexv(w.iter().copied())
            )
            .unwrap(),
        }
        out.flush().unwrap();
    }
}
