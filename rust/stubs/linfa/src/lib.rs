//! Stand-in for the part of linfa that the Ficus backend uses.
use ndarray::{Array1, Array2};
#[derive(Clone, Debug, PartialEq)]
pub struct DatasetBase<R, T> { pub records: R, pub targets: T }
impl<R, T> DatasetBase<R, T> {
    pub fn new(records: R, targets: T) -> Self { DatasetBase { records, targets } }
    pub fn records(&self) -> &R { &self.records }
    pub fn targets(&self) -> &T { &self.targets }
}
impl From<Array2<f64>> for DatasetBase<Array2<f64>, Array1<()>> {
    fn from(records: Array2<f64>) -> Self { let n = records.nrows(); DatasetBase { records, targets: Array1::default(n) } }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub mod traits {
    pub trait Transformer<R, T> { fn transform(&self, x: R) -> T; }
    pub trait Fit<R> { type Object; fn fit(&self, dataset: &R) -> Result<Self::Object, super::Error>; }
    pub trait Predict<R, T> { fn predict(&self, x: R) -> T; }
}
pub mod metrics {
    use super::*;
    pub trait SilhouetteScore { fn silhouette_score(&self) -> Result<f64, Error>; }
    impl SilhouetteScore for DatasetBase<Array2<f64>, Array1<usize>> {
        fn silhouette_score(&self) -> Result<f64, Error> {
            let labels = self.targets.to_vec();
            let mut kinds = labels.clone();
            kinds.sort();
            kinds.dedup();
            if kinds.len() == 1 { return Ok(1.0); }
            if labels.is_empty() { return Err(Error("no samples".to_owned())); }
            let d = |i: usize, j: usize| -> f64 {
                self.records.row(i).iter().zip(self.records.row(j).iter()).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt()
            };
            let mut sum = 0.0;
            for i in 0..labels.len() {
                let mean = |kind: usize| {
                    let other: Vec<f64> = (0..labels.len()).filter(|j| *j != i && labels[*j] == kind).map(|j| d(i, j)).collect();
                    if other.is_empty() { 0.0 } else { other.iter().sum::<f64>() / other.len() as f64 }
                };
                let a = mean(labels[i]);
                let b = kinds.iter().filter(|k| **k != labels[i]).map(|k| mean(*k)).fold(f64::MAX, f64::min);
                if a.max(b) > 0.0 { sum += (b - a) / a.max(b); }
            }
            Ok(sum / labels.len() as f64)
        }
    }
}
