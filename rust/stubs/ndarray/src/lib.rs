//! Stand-in for the part of ndarray that the Ficus backend uses: owned one- and two-dimensional arrays and their views.
pub trait Dimension: Clone { fn slice(&self) -> &[usize]; }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dim<I>(pub I);
impl Dimension for Dim<[usize; 1]> { fn slice(&self) -> &[usize] { &self.0 } }
impl Dimension for Dim<[usize; 2]> { fn slice(&self) -> &[usize] { &self.0 } }
pub trait Pattern { type Pattern; fn pattern(&self) -> Self::Pattern; }
impl Pattern for Dim<[usize; 1]> { type Pattern = usize; fn pattern(&self) -> usize { self.0[0] } }
impl Pattern for Dim<[usize; 2]> { type Pattern = (usize, usize); fn pattern(&self) -> (usize, usize) { (self.0[0], self.0[1]) } }
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;

pub struct ArrayView<'a, A, D: Dimension> { data: &'a [A], _d: std::marker::PhantomData<D> }
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
impl<'a, A, D: Dimension> Clone for ArrayView<'a, A, D> { fn clone(&self) -> Self { ArrayView { data: self.data, _d: std::marker::PhantomData } } }
impl<'a, A, D: Dimension> ArrayView<'a, A, D> {
    pub fn len(&self) -> usize { self.data.len() }
    pub fn is_empty(&self) -> bool { self.data.is_empty() }
    pub fn iter(&self) -> std::slice::Iter<'a, A> { self.data.iter() }
}
impl<'a, A> From<&'a [A]> for ArrayView<'a, A, Ix1> { fn from(data: &'a [A]) -> Self { ArrayView { data, _d: std::marker::PhantomData } } }

#[derive(Clone, Debug, PartialEq)]
pub struct OwnedRepr<A>(Vec<A>);
#[derive(Clone, Debug, PartialEq)]
pub struct ArrayBase<S, D> { data: S, dim: D }
pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ShapeError;
impl std::fmt::Display for ShapeError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("ShapeError: incompatible shapes") } }
impl std::error::Error for ShapeError {}

pub trait IntoDimension { type Dim: Dimension; fn into_dimension(self) -> Self::Dim; }
impl IntoDimension for usize { type Dim = Ix1; fn into_dimension(self) -> Ix1 { Dim([self]) } }
impl IntoDimension for [usize; 1] { type Dim = Ix1; fn into_dimension(self) -> Ix1 { Dim(self) } }
impl IntoDimension for [usize; 2] { type Dim = Ix2; fn into_dimension(self) -> Ix2 { Dim(self) } }
impl IntoDimension for (usize, usize) { type Dim = Ix2; fn into_dimension(self) -> Ix2 { Dim([self.0, self.1]) } }

impl<A, D: Dimension> ArrayBase<OwnedRepr<A>, D> {
    pub fn from_shape_vec<I: IntoDimension<Dim = D>>(shape: I, v: Vec<A>) -> Result<Self, ShapeError> {
        let dim = shape.into_dimension();
        if dim.slice().iter().product::<usize>() != v.len() { return Err(ShapeError); }
        Ok(ArrayBase { data: OwnedRepr(v), dim })
    }
    pub fn from_elem<I: IntoDimension<Dim = D>>(shape: I, v: A) -> Self where A: Clone {
        let dim = shape.into_dimension();
        ArrayBase { data: OwnedRepr(vec![v; dim.slice().iter().product()]), dim }
    }
    pub fn zeros<I: IntoDimension<Dim = D>>(shape: I) -> Self where A: Clone + Default { Self::from_elem(shape, A::default()) }
    pub fn dim(&self) -> <D as Pattern>::Pattern where D: Pattern { self.dim.pattern() }
    pub fn shape(&self) -> &[usize] { self.dim.slice() }
    pub fn len(&self) -> usize { self.data.0.len() }
    pub fn is_empty(&self) -> bool { self.data.0.is_empty() }
    pub fn ndim(&self) -> usize { self.shape().len() }
    fn offset(&self, at: &[usize]) -> Option<usize> {
        let mut offset = 0;
        for (i, n) in at.iter().zip(self.shape()) { if i >= n { return None; } offset = offset * n + i; }
        Some(offset)
    }
    pub fn get<I: IntoDimension<Dim = D>>(&self, at: I) -> Option<&A> { self.offset(at.into_dimension().slice()).map(|i| &self.data.0[i]) }
    pub fn get_mut<I: IntoDimension<Dim = D>>(&mut self, at: I) -> Option<&mut A> { self.offset(at.into_dimension().slice()).map(|i| &mut self.data.0[i]) }
    pub fn iter(&self) -> std::slice::Iter<'_, A> { self.data.0.iter() }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, A> { self.data.0.iter_mut() }
    pub fn map<B>(&self, f: impl FnMut(&A) -> B) -> Array<B, D> { ArrayBase { data: OwnedRepr(self.data.0.iter().map(f).collect()), dim: self.dim.clone() } }
    pub fn mapv<B>(&self, mut f: impl FnMut(A) -> B) -> Array<B, D> where A: Clone { self.map(|x| f(x.clone())) }
    pub fn into_raw_vec(self) -> Vec<A> { self.data.0 }
    pub fn as_slice(&self) -> Option<&[A]> { Some(&self.data.0) }
}
impl<A> Array1<A> {
    pub fn from_vec(v: Vec<A>) -> Self { let n = v.len(); ArrayBase { data: OwnedRepr(v), dim: Dim([n]) } }
    pub fn to_vec(&self) -> Vec<A> where A: Clone { self.data.0.clone() }
    pub fn default(n: usize) -> Self where A: Default { Self::from_vec((0..n).map(|_| A::default()).collect()) }
}
impl<A> Array2<A> {
    pub fn nrows(&self) -> usize { self.dim.0[0] }
    pub fn ncols(&self) -> usize { self.dim.0[1] }
    pub fn row(&self, i: usize) -> ArrayView1<'_, A> { let n = self.ncols(); ArrayView::from(&self.data.0[i * n..(i + 1) * n]) }
}
impl<A> From<Vec<A>> for Array1<A> { fn from(v: Vec<A>) -> Self { Self::from_vec(v) } }
impl<A> FromIterator<A> for Array1<A> { fn from_iter<T: IntoIterator<Item = A>>(it: T) -> Self { Self::from_vec(it.into_iter().collect()) } }
impl<A, D: Dimension, I: IntoDimension<Dim = D>> std::ops::Index<I> for Array<A, D> {
    type Output = A;
    fn index(&self, at: I) -> &A { self.get(at).expect("ndarray: index out of bounds") }
}
impl<A, D: Dimension, I: IntoDimension<Dim = D>> std::ops::IndexMut<I> for Array<A, D> {
    fn index_mut(&mut self, at: I) -> &mut A { self.get_mut(at).expect("ndarray: index out of bounds") }
}
impl<A> Array2<A> {
    pub fn rows(&self) -> impl Iterator<Item = ArrayView1<'_, A>> + '_ { (0..self.nrows()).map(move |i| self.row(i)) }
    pub fn outer_iter(&self) -> impl Iterator<Item = ArrayView1<'_, A>> + '_ { self.rows() }
}
impl<'a, A> std::ops::Index<usize> for ArrayView<'a, A, Ix1> {
    type Output = A;
    fn index(&self, at: usize) -> &A { &self.data[at] }
}
impl<'a, A> ArrayView<'a, A, Ix1> { pub fn to_vec(&self) -> Vec<A> where A: Clone { self.data.to_vec() } }
