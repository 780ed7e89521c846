use crate::*;

pub enum FoldWhile<T> {
    Continue(T),
    Done(T),
}
impl<T> FoldWhile<T> {
    pub fn into_inner(self) -> T {
        match self {
            FoldWhile::Continue(x) | FoldWhile::Done(x) => x,
        }
    }
    pub fn is_done(&self) -> bool {
        matches!(self, FoldWhile::Done(_))
    }
}

pub trait NdProducer {
    type Item;
    type Dim: Dimension;
    type NdIter: Iterator<Item = Self::Item>;
    fn nd_dim(&self) -> Self::Dim;
    fn nd_iter(self) -> Self::NdIter;
}
pub trait IntoNdProducer {
    type Item;
    type Dim: Dimension;
    type Output: NdProducer<Item = Self::Item, Dim = Self::Dim>;
    fn into_producer(self) -> Self::Output;
}
impl<P: NdProducer> IntoNdProducer for P {
    type Item = P::Item;
    type Dim = P::Dim;
    type Output = P;
    fn into_producer(self) -> P {
        self
    }
}
impl<'a, A, D: Dimension> NdProducer for ArrayView<'a, A, D> {
    type Item = &'a A;
    type Dim = D;
    type NdIter = Iter<'a, A, D>;
    fn nd_dim(&self) -> D {
        self.dim.clone()
    }
    fn nd_iter(self) -> Iter<'a, A, D> {
        self.into_iter_()
    }
}
impl<'a, A, D: Dimension> NdProducer for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type Dim = D;
    type NdIter = IterMut<'a, A, D>;
    fn nd_dim(&self) -> D {
        self.dim.clone()
    }
    fn nd_iter(self) -> IterMut<'a, A, D> {
        self.into_iter_mut_()
    }
}
impl<'a, A, D: Dimension> NdProducer for Lanes<'a, A, D> {
    type Item = ArrayView1<'a, A>;
    type Dim = D;
    type NdIter = LanesIter<'a, A, D>;
    fn nd_dim(&self) -> D {
        self.base.dim.clone()
    }
    fn nd_iter(self) -> LanesIter<'a, A, D> {
        self.into_iter()
    }
}
impl<'a, A, D: Dimension> NdProducer for LanesMut<'a, A, D> {
    type Item = ArrayViewMut1<'a, A>;
    type Dim = D;
    type NdIter = LanesIterMut<'a, A, D>;
    fn nd_dim(&self) -> D {
        self.base.dim.clone()
    }
    fn nd_iter(self) -> LanesIterMut<'a, A, D> {
        self.into_iter()
    }
}
impl<'a, A, D: Dimension> NdProducer for AxisIter<'a, A, D> {
    type Item = ArrayView<'a, A, D>;
    type Dim = Ix1;
    type NdIter = Self;
    fn nd_dim(&self) -> Ix1 {
        Ix1(self.end - self.i)
    }
    fn nd_iter(self) -> Self {
        self
    }
}
impl<'a, A, D: Dimension> NdProducer for AxisIterMut<'a, A, D> {
    type Item = ArrayViewMut<'a, A, D>;
    type Dim = Ix1;
    type NdIter = Self;
    fn nd_dim(&self) -> Ix1 {
        Ix1(self.end - self.i)
    }
    fn nd_iter(self) -> Self {
        self
    }
}
impl<'a, S: Data, D: Dimension> IntoNdProducer for &'a ArrayBase<S, D>
where
    S::Elem: 'a,
{
    type Item = &'a S::Elem;
    type Dim = D;
    type Output = ArrayView<'a, S::Elem, D>;
    fn into_producer(self) -> Self::Output {
        self.view()
    }
}
impl<'a, S: DataMut, D: Dimension> IntoNdProducer for &'a mut ArrayBase<S, D>
where
    S::Elem: 'a,
{
    type Item = &'a mut S::Elem;
    type Dim = D;
    type Output = ArrayViewMut<'a, S::Elem, D>;
    fn into_producer(self) -> Self::Output {
        self.view_mut()
    }
}
impl<'a, A: 'a> IntoNdProducer for &'a [A] {
    type Item = &'a A;
    type Dim = Ix1;
    type Output = ArrayView1<'a, A>;
    fn into_producer(self) -> Self::Output {
        ArrayView::from(self)
    }
}
impl<'a, A: 'a> IntoNdProducer for &'a mut [A] {
    type Item = &'a mut A;
    type Dim = Ix1;
    type Output = ArrayViewMut1<'a, A>;
    fn into_producer(self) -> Self::Output {
        ArrayViewMut::from(self)
    }
}
impl<'a, A: 'a> IntoNdProducer for &'a Vec<A> {
    type Item = &'a A;
    type Dim = Ix1;
    type Output = ArrayView1<'a, A>;
    fn into_producer(self) -> Self::Output {
        ArrayView::from(&self[..])
    }
}
impl<'a, A: 'a> IntoNdProducer for &'a mut Vec<A> {
    type Item = &'a mut A;
    type Dim = Ix1;
    type Output = ArrayViewMut1<'a, A>;
    fn into_producer(self) -> Self::Output {
        ArrayViewMut::from(&mut self[..])
    }
}

/// index producer
pub struct Indices<D>(pub(crate) D);
pub struct IndicesIter<D: Dimension> {
    dim: D,
    index: D,
    left: usize,
}
impl<D: Dimension> Iterator for IndicesIter<D> {
    type Item = D::Pattern;
    fn next(&mut self) -> Option<D::Pattern> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let cur = self.index.clone();
        for i in (0..self.dim.ndim()).rev() {
            self.index.slice_mut()[i] += 1;
            if self.index.slice()[i] < self.dim.slice()[i] {
                break;
            }
            self.index.slice_mut()[i] = 0;
        }
        Some(cur.into_pattern())
    }
}
impl<D: Dimension> NdProducer for Indices<D> {
    type Item = D::Pattern;
    type Dim = D;
    type NdIter = IndicesIter<D>;
    fn nd_dim(&self) -> D {
        self.0.clone()
    }
    fn nd_iter(self) -> IndicesIter<D> {
        let n = self.0.ndim();
        IndicesIter { left: self.0.size(), index: D::zeros(n), dim: self.0 }
    }
}

pub struct Zip<Parts, D> {
    parts: Parts,
    dim: D,
}
impl<P: NdProducer> Zip<(P,), P::Dim> {
    pub fn from<I: IntoNdProducer<Dim = P::Dim, Output = P, Item = P::Item>>(p: I) -> Self {
        let p = p.into_producer();
        let dim = p.nd_dim();
        Zip { parts: (p,), dim }
    }
}
impl<P: NdProducer> Zip<(Indices<P::Dim>, P), P::Dim> {
    pub fn indexed<I: IntoNdProducer<Dim = P::Dim, Output = P, Item = P::Item>>(p: I) -> Self {
        let p = p.into_producer();
        let dim = p.nd_dim();
        Zip { parts: (Indices(dim.clone()), p), dim }
    }
}
macro_rules! zipimpl {
    ($($p:ident $v:ident),+) => {
        impl<D: Dimension, $($p: NdProducer<Dim = D>),+> Zip<($($p,)+), D> {
            pub fn apply<F: FnMut($($p::Item),+)>(self, mut f: F) {
                let ($($v,)+) = self.parts;
                $(let mut $v = $v.nd_iter();)+
                for _ in 0..self.dim.size() {
                    $(let $v = $v.next().unwrap();)+
                    f($($v),+);
                }
            }
            pub fn for_each<F: FnMut($($p::Item),+)>(self, f: F) {
                self.apply(f)
            }
            pub fn fold_while<Acc, F: FnMut(Acc, $($p::Item),+) -> FoldWhile<Acc>>(self, acc: Acc, mut f: F) -> FoldWhile<Acc> {
                let ($($v,)+) = self.parts;
                $(let mut $v = $v.nd_iter();)+
                let mut acc = acc;
                for _ in 0..self.dim.size() {
                    $(let $v = $v.next().unwrap();)+
                    match f(acc, $($v),+) {
                        FoldWhile::Continue(a) => acc = a,
                        d => return d,
                    }
                }
                FoldWhile::Continue(acc)
            }
            pub fn fold<Acc, F: FnMut(Acc, $($p::Item),+) -> Acc>(self, acc: Acc, mut f: F) -> Acc {
                self.fold_while(acc, |a, $($v),+| FoldWhile::Continue(f(a, $($v),+))).into_inner()
            }
            pub fn all<F: FnMut($($p::Item),+) -> bool>(self, mut f: F) -> bool {
                !self.fold_while((), |_, $($v),+| if f($($v),+) { FoldWhile::Continue(()) } else { FoldWhile::Done(()) }).is_done()
            }
            pub fn size(&self) -> usize {
                self.dim.size()
            }
        }
    };
}
macro_rules! zipand {
    ($($p:ident $v:ident),+) => {
        impl<D: Dimension, $($p: NdProducer<Dim = D>),+> Zip<($($p,)+), D> {
            pub fn and<I: IntoNdProducer<Dim = D>>(self, p: I) -> Zip<($($p,)+ I::Output,), D> {
                let q = p.into_producer();
                assert!(q.nd_dim() == self.dim, "ndarray: inputs of Zip have different shapes");
                let ($($v,)+) = self.parts;
                Zip { parts: ($($v,)+ q,), dim: self.dim }
            }
            pub fn and_broadcast<'a, A: 'a, E: Dimension, S: Data<Elem = A>>(self, p: &'a ArrayBase<S, E>) -> Zip<($($p,)+ ArrayView<'a, A, D>,), D> {
                let q = p.broadcast_dim(self.dim.clone()).unwrap();
                let ($($v,)+) = self.parts;
                Zip { parts: ($($v,)+ q,), dim: self.dim }
            }
        }
    };
}
zipimpl!(P1 a);
zipimpl!(P1 a, P2 b);
zipimpl!(P1 a, P2 b, P3 c);
zipimpl!(P1 a, P2 b, P3 c, P4 d);
zipimpl!(P1 a, P2 b, P3 c, P4 d, P5 e);
zipimpl!(P1 a, P2 b, P3 c, P4 d, P5 e, P6 g);
zipand!(P1 a);
zipand!(P1 a, P2 b);
zipand!(P1 a, P2 b, P3 c);
zipand!(P1 a, P2 b, P3 c, P4 d);
zipand!(P1 a, P2 b, P3 c, P4 d, P5 e);

#[macro_export]
macro_rules! azip {
    // azip!(mut a (expr), b (expr) in { body })
    (@p [$($acc:tt)*] mut $v:ident ($e:expr) , $($rest:tt)*) => { $crate::azip!(@p [$($acc)* (mutr $v $e)] $($rest)*) };
    (@p [$($acc:tt)*] mut $v:ident ($e:expr) in $body:block) => { $crate::azip!(@go [$($acc)* (mutr $v $e)] $body) };
    (@p [$($acc:tt)*] mut $v:ident , $($rest:tt)*) => { $crate::azip!(@p [$($acc)* (mutr $v &mut $v)] $($rest)*) };
    (@p [$($acc:tt)*] mut $v:ident in $body:block) => { $crate::azip!(@go [$($acc)* (mutr $v &mut $v)] $body) };
    (@p [$($acc:tt)*] ref $v:ident ($e:expr) , $($rest:tt)*) => { $crate::azip!(@p [$($acc)* (mutr $v $e)] $($rest)*) };
    (@p [$($acc:tt)*] ref $v:ident ($e:expr) in $body:block) => { $crate::azip!(@go [$($acc)* (mutr $v $e)] $body) };
    (@p [$($acc:tt)*] $v:ident ($e:expr) , $($rest:tt)*) => { $crate::azip!(@p [$($acc)* (refr $v $e)] $($rest)*) };
    (@p [$($acc:tt)*] $v:ident ($e:expr) in $body:block) => { $crate::azip!(@go [$($acc)* (refr $v $e)] $body) };
    (@p [$($acc:tt)*] $v:ident , $($rest:tt)*) => { $crate::azip!(@p [$($acc)* (refr $v &$v)] $($rest)*) };
    (@p [$($acc:tt)*] $v:ident in $body:block) => { $crate::azip!(@go [$($acc)* (refr $v &$v)] $body) };
    (@go [($k0:ident $v0:ident $e0:expr) $(($k:ident $v:ident $e:expr))*] $body:block) => {
        $crate::Zip::from($e0)$(.and($e))*.apply(|$v0 $(, $v)*| { $($crate::azip!(@d $k $v);)* $crate::azip!(@d $k0 $v0); $body })
    };
    (@d refr $v:ident) => { let $v = *$v; };
    (@d mutr $v:ident) => { };
    ($($t:tt)+) => { $crate::azip!(@p [] $($t)+) };
}
