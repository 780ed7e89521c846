use crate::*;
pub trait Dot<Rhs> {
    type Output;
    fn dot(&self, rhs: &Rhs) -> Self::Output;
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix1> {
    type Output = A;
    fn dot(&self, rhs: &ArrayBase<S2, Ix1>) -> A {
        assert_eq!(self.len(), rhs.len());
        self.iter().zip(rhs.iter()).fold(A::zero(), |acc, (x, y)| acc + *x * *y)
    }
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix2> {
    type Output = Array1<A>;
    fn dot(&self, rhs: &ArrayBase<S2, Ix1>) -> Array1<A> {
        let (m, n) = self.dim();
        assert_eq!(n, rhs.len());
        (0..m).map(|i| (0..n).fold(A::zero(), |acc, j| acc + self[[i, j]] * rhs[j])).collect()
    }
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix2>> for ArrayBase<S, Ix1> {
    type Output = Array1<A>;
    fn dot(&self, rhs: &ArrayBase<S2, Ix2>) -> Array1<A> {
        rhs.t().dot(self)
    }
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix2>> for ArrayBase<S, Ix2> {
    type Output = Array2<A>;
    fn dot(&self, rhs: &ArrayBase<S2, Ix2>) -> Array2<A> {
        let (m, n) = self.dim();
        let (n2, k) = rhs.dim();
        assert_eq!(n, n2);
        Array2::from_shape_fn((m, k), |(i, j)| (0..n).fold(A::zero(), |acc, l| acc + self[[i, l]] * rhs[[l, j]]))
    }
}
impl<A: LinalgScalar, S: Data<Elem = A>, D: Dimension> ArrayBase<S, D> {
    pub fn dot<Rhs>(&self, rhs: &Rhs) -> <Self as Dot<Rhs>>::Output
    where
        Self: Dot<Rhs>,
    {
        Dot::dot(self, rhs)
    }
}
