//! Stand-in for the distance trait of linfa-nn.
pub mod distance {
    use ndarray::{ArrayView, Dimension};
    pub trait Distance<F>: Clone + Send + Sync {
        fn distance<D: Dimension>(&self, a: ArrayView<F, D>, b: ArrayView<F, D>) -> F;
        fn rdistance<D: Dimension>(&self, a: ArrayView<F, D>, b: ArrayView<F, D>) -> F { self.distance(a, b) }
        fn rdist_to_dist(&self, r: F) -> F { r }
        fn dist_to_rdist(&self, d: F) -> F { d }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct L1Dist;
    impl Distance<f64> for L1Dist {
        fn distance<D: Dimension>(&self, a: ArrayView<f64, D>, b: ArrayView<f64, D>) -> f64 { a.iter().zip(b.iter()).map(|(x, y)| (x - y).abs()).sum() }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct L2Dist;
    impl Distance<f64> for L2Dist {
        fn distance<D: Dimension>(&self, a: ArrayView<f64, D>, b: ArrayView<f64, D>) -> f64 {
            a.iter().zip(b.iter()).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
        }
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct KdTree;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct LinearSearch;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct BallTree;
