//! Stand-in for the clustering algorithms of linfa: DBSCAN as linfa runs it, and Lloyd's k-means.
use linfa::{traits::*, DatasetBase, Error};
use linfa_nn::distance::Distance;
use ndarray::{Array1, Array2, ArrayView};
use rand::Rng;
use std::collections::VecDeque;

pub struct Dbscan;
#[derive(Clone)]
pub struct DbscanParams<D, N> { min_points: usize, tolerance: f64, distance: D, _nn: N }
impl Dbscan {
    pub fn params_with<D: Distance<f64>, N>(min_points: usize, distance: D, nn: N) -> DbscanParams<D, N> {
        DbscanParams { min_points, tolerance: 1e-4, distance, _nn: nn }
    }
}
impl<D, N> DbscanParams<D, N> { pub fn tolerance(mut self, tolerance: f64) -> Self { self.tolerance = tolerance; self } }
impl<D: Distance<f64>, N> Transformer<&Array2<f64>, Result<Array1<Option<usize>>, Error>> for DbscanParams<D, N> {
    fn transform(&self, x: &Array2<f64>) -> Result<Array1<Option<usize>>, Error> {
        if self.tolerance <= 0.0 { return Err(Error("`tolerance` must be greater than 0".to_owned())); }
        if self.min_points <= 1 { return Err(Error("`min_points` must be greater than 1".to_owned())); }
        let n = x.nrows();
        let mut labels: Vec<Option<usize>> = vec![None; n];
        if x.ncols() == 0 { return Ok(Array1::from_vec(labels)); }
        let near: Vec<Vec<usize>> = (0..n)
            .map(|i| (0..n).filter(|j| self.distance.distance(x.row(i), x.row(*j)) <= self.tolerance).collect())
            .collect();
        let mut cluster = 0;
        for i in 0..n {
            if labels[i].is_some() || near[i].len() < self.min_points { continue; }
            labels[i] = Some(cluster);
            let mut queue: VecDeque<usize> = near[i].iter().copied().filter(|j| labels[*j].is_none()).collect();
            while let Some(j) = queue.pop_front() {
                if labels[j].is_some() { continue; }
                labels[j] = Some(cluster);
                if near[j].len() >= self.min_points { queue.extend(near[j].iter().copied().filter(|k| labels[*k].is_none())); }
            }
            cluster += 1;
        }
        Ok(Array1::from_vec(labels))
    }
}

pub struct KMeans<F, D> { centroids: Vec<Vec<F>>, distance: D }
pub struct KMeansParams<R, D> { clusters: usize, rng: std::cell::RefCell<R>, distance: D, iterations: u64, tolerance: f64 }
impl KMeans<f64, ()> {
    pub fn params_with<R: Rng, D: Distance<f64>>(clusters: usize, rng: R, distance: D) -> KMeansParams<R, D> {
        KMeansParams { clusters, rng: std::cell::RefCell::new(rng), distance, iterations: 300, tolerance: 1e-4 }
    }
}
impl<R, D> KMeansParams<R, D> {
    pub fn max_n_iterations(mut self, n: u64) -> Self { self.iterations = n; self }
    pub fn tolerance(mut self, tolerance: f64) -> Self { self.tolerance = tolerance; self }
}
fn closest<D: Distance<f64>>(centroids: &[Vec<f64>], row: &[f64], distance: &D) -> usize {
    let mut best = (0, f64::MAX);
    for (i, c) in centroids.iter().enumerate() {
        let d = distance.distance(ArrayView::from(&c[..]), ArrayView::from(row));
        if d < best.1 { best = (i, d); }
    }
    best.0
}
impl<R: Rng, D: Distance<f64>> Fit<DatasetBase<Array2<f64>, Array1<()>>> for KMeansParams<R, D> {
    type Object = KMeans<f64, D>;
    fn fit(&self, dataset: &DatasetBase<Array2<f64>, Array1<()>>) -> Result<KMeans<f64, D>, Error> {
        if self.clusters == 0 || self.iterations == 0 || self.tolerance <= 0.0 { return Err(Error("invalid hyperparameter".to_owned())); }
        let x = dataset.records();
        let rows: Vec<Vec<f64>> = (0..x.nrows()).map(|i| x.row(i).iter().copied().collect()).collect();
        if rows.len() < self.clusters { return Err(Error("fewer samples than clusters".to_owned())); }
        let mut left: Vec<usize> = (0..rows.len()).collect();
        let mut centroids = vec![];
        for _ in 0..self.clusters { let at = self.rng.borrow_mut().gen_range(0..left.len()); centroids.push(rows[left.swap_remove(at)].clone()); }
        for _ in 0..self.iterations {
            let mut sums = vec![(vec![0.0; x.ncols()], 0usize); self.clusters];
            for row in &rows {
                let s = &mut sums[closest(&centroids, row, &self.distance)];
                for (a, b) in s.0.iter_mut().zip(row) { *a += b; }
                s.1 += 1;
            }
            let mut moved = 0.0;
            for (c, (sum, n)) in centroids.iter_mut().zip(sums) {
                if n == 0 { continue; }
                for (a, b) in c.iter_mut().zip(sum) { moved += (*a - b / n as f64).abs(); *a = b / n as f64; }
            }
            if moved < self.tolerance { break; }
        }
        Ok(KMeans { centroids, distance: self.distance.clone() })
    }
}
impl<D: Distance<f64>> Predict<DatasetBase<Array2<f64>, Array1<()>>, DatasetBase<Array2<f64>, Array1<usize>>> for KMeans<f64, D> {
    fn predict(&self, x: DatasetBase<Array2<f64>, Array1<()>>) -> DatasetBase<Array2<f64>, Array1<usize>> {
        let targets = (0..x.records.nrows())
            .map(|i| closest(&self.centroids, &x.records.row(i).iter().copied().collect::<Vec<f64>>(), &self.distance))
            .collect();
        DatasetBase { records: x.records, targets }
    }
}
