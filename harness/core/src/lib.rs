//! Shared helpers of the conformance harnesses: value formatting, a small deterministic random
//! number generator and a watchdog that turns a hanging call into data.
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};

pub mod rational;

/// Scalars that can be logged exactly as the bit pattern of a double.
pub trait Val: nalgebra::RealField + Copy {
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Val for f64 {
    fn of(x: f64) -> Self {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
impl Val for f32 {
    fn of(x: f64) -> Self {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}

pub fn hex(x: f64) -> String {
    format!("\"{:016x}\"", x.to_bits())
}

pub fn hexv<T: Val>(it: impl Iterator<Item = T>) -> String {
    let mut s = String::from("[");
    for (i, x) in it.enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "\"{:016x}\"", x.f().to_bits());
    }
    s.push(']');
    s
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// uniform in [-1, 1)
    pub fn sym(&mut self) -> f64 {
        2.0 * self.unit() - 1.0
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
}

static TICK: AtomicU64 = AtomicU64::new(0);

/// Call at the start of every unit of work.
pub fn tick() {
    TICK.fetch_add(1, Ordering::SeqCst);
}

/// Starts a thread that runs `on_hang` and exits when no `tick` arrives for `secs` seconds.
pub fn watchdog(secs: u64, on_hang: impl Fn() + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = (TICK.load(Ordering::SeqCst), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::SeqCst);
            if t == last.0 {
                last.1 += 1;
                if last.1 >= secs {
                    on_hang();
                    std::process::exit(0);
                }
            } else {
                last = (t, 0);
            }
        }
    });
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
