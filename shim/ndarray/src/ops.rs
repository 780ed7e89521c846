use crate::*;
use std::ops::*;

pub trait ScalarOperand: 'static + Clone {}
macro_rules! so { ($($t:ty),*) => { $(impl ScalarOperand for $t {})* }; }
so!(bool, i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, f32, f64);

macro_rules! binop {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident) => {
        impl<'a, 'b, A, B, S, S2, D, E> $tr<&'a ArrayBase<S2, E>> for &'b ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            B: Clone,
            S: Data<Elem = A>,
            S2: Data<Elem = B>,
            D: Dimension,
            E: Dimension,
        {
            type Output = Array<A, D>;
            fn $m(self, rhs: &'a ArrayBase<S2, E>) -> Array<A, D> {
                self.to_owned().$m(rhs)
            }
        }
        impl<'a, A, B, S, S2, D, E> $tr<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            B: Clone,
            S: DataOwned<Elem = A> + DataMut,
            S2: Data<Elem = B>,
            D: Dimension,
            E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $m(mut self, rhs: &'a ArrayBase<S2, E>) -> ArrayBase<S, D> {
                self.zip_mut_with(rhs, |x, y| *x = x.clone().$m(y.clone()));
                self
            }
        }
        impl<A, B, S, S2, D, E> $tr<ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            B: Clone,
            S: DataOwned<Elem = A> + DataMut,
            S2: Data<Elem = B>,
            D: Dimension,
            E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $m(self, rhs: ArrayBase<S2, E>) -> ArrayBase<S, D> {
                self.$m(&rhs)
            }
        }
        impl<'a, A, B, S, D> $tr<B> for &'a ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            S: Data<Elem = A>,
            D: Dimension,
            B: ScalarOperand,
        {
            type Output = Array<A, D>;
            fn $m(self, x: B) -> Array<A, D> {
                self.map(|e| e.clone().$m(x.clone()))
            }
        }
        impl<A, B, S, D> $tr<B> for ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            S: DataOwned<Elem = A> + DataMut,
            D: Dimension,
            B: ScalarOperand,
        {
            type Output = ArrayBase<S, D>;
            fn $m(mut self, x: B) -> ArrayBase<S, D> {
                self.map_inplace(|e| *e = e.clone().$m(x.clone()));
                self
            }
        }
        impl<'a, A, S, S2, D, E> $tra<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $tra<A>,
            S: DataMut<Elem = A>,
            S2: Data<Elem = A>,
            D: Dimension,
            E: Dimension,
        {
            fn $ma(&mut self, rhs: &'a ArrayBase<S2, E>) {
                self.zip_mut_with(rhs, |x, y| x.$ma(y.clone()));
            }
        }
        impl<A, S, D> $tra<A> for ArrayBase<S, D>
        where
            A: ScalarOperand + $tra<A>,
            S: DataMut<Elem = A>,
            D: Dimension,
        {
            fn $ma(&mut self, x: A) {
                self.map_inplace(|e| e.$ma(x.clone()));
            }
        }
        binop!(@left $tr, $m, f64, f32, i32, i64, usize, isize, u32, u64);
    };
    (@left $tr:ident, $m:ident, $($t:ty),*) => {
        $(
        impl<'a, S: Data<Elem = $t>, D: Dimension> $tr<&'a ArrayBase<S, D>> for $t {
            type Output = Array<$t, D>;
            fn $m(self, rhs: &'a ArrayBase<S, D>) -> Array<$t, D> {
                rhs.map(|e| self.$m(*e))
            }
        }
        impl<S: DataOwned<Elem = $t> + DataMut, D: Dimension> $tr<ArrayBase<S, D>> for $t {
            type Output = ArrayBase<S, D>;
            fn $m(self, mut rhs: ArrayBase<S, D>) -> ArrayBase<S, D> {
                rhs.map_inplace(|e| *e = self.$m(*e));
                rhs
            }
        }
        )*
    };
}
binop!(Add, add, AddAssign, add_assign);
binop!(Sub, sub, SubAssign, sub_assign);
binop!(Mul, mul, MulAssign, mul_assign);
binop!(Div, div, DivAssign, div_assign);
binop!(Rem, rem, RemAssign, rem_assign);

impl<A: Clone + Neg<Output = A>, S: DataOwned<Elem = A> + DataMut, D: Dimension> Neg for ArrayBase<S, D> {
    type Output = Self;
    fn neg(mut self) -> Self {
        self.map_inplace(|e| *e = -e.clone());
        self
    }
}
impl<'a, A: Clone + Neg<Output = A>, S: Data<Elem = A>, D: Dimension> Neg for &'a ArrayBase<S, D> {
    type Output = Array<A, D>;
    fn neg(self) -> Array<A, D> {
        self.map(|e| -e.clone())
    }
}
impl<A: Clone + Not<Output = A>, S: DataOwned<Elem = A> + DataMut, D: Dimension> Not for ArrayBase<S, D> {
    type Output = Self;
    fn not(mut self) -> Self {
        self.map_inplace(|e| *e = !e.clone());
        self
    }
}
