//! Stand-in for `nearly_eq` (absolute tolerance 1e-6 by default), as used by the unit tests of the
//! integrator sources.
use ndarray::{ArrayBase, Data, Dimension};
pub trait NearlyEq<Rhs: ?Sized = Self, Diff: ?Sized = Self> {
    fn eps() -> Diff;
    fn eq(&self, other: &Rhs, eps: &Diff) -> bool;
}
impl NearlyEq<f64, f64> for f64 {
    fn eps() -> f64 {
        1e-6
    }
    fn eq(&self, o: &f64, eps: &f64) -> bool {
        (self - o).abs() <= *eps || self == o
    }
}
impl<S: Data<Elem = f64>, S2: Data<Elem = f64>, D: Dimension> NearlyEq<ArrayBase<S2, D>, f64> for ArrayBase<S, D> {
    fn eps() -> f64 {
        1e-6
    }
    fn eq(&self, o: &ArrayBase<S2, D>, eps: &f64) -> bool {
        self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| NearlyEq::eq(a, b, eps))
    }
}
pub fn near<A: NearlyEq<B, f64>, B>(a: &A, b: &B, eps: Option<f64>) -> bool {
    a.eq(b, &eps.unwrap_or_else(A::eps))
}
#[macro_export]
macro_rules! assert_nearly_eq {
    ($a:expr, $b:expr $(,)?) => {{
        let (a, b) = (&$a, &$b);
        assert!($crate::near(a, b, None), "{:?} is not nearly {:?}", a, b);
    }};
    ($a:expr, $b:expr, $eps:expr $(,)?) => {{
        let (a, b) = (&$a, &$b);
        assert!($crate::near(a, b, Some($eps)), "{:?} is not nearly {:?}", a, b);
    }};
}
