//! User-supplied losses, penalties, designs and targets plugged into the solvers and estimators.
//! The components check how they are called: a broken calling convention is a panic.
#![allow(non_snake_case)]
#[path = "../common.rs"]
mod common;
#[macro_use]
#[path = "../data.rs"]
mod data;
use common::*;
use data::*;
use ndarray::{s, Array1, Array2, ArrayView1, ArrayView2};
use serde_json::{json, Value};
use std::cell::RefCell;
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix, DesignMatrixType};
use sparseglm::estimators::estimators::{
    BlockMCPEstimator, ElasticNet, Lasso, MCPEstimator, MultiTaskElasticNet, MultiTaskLasso,
};
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};
use sparseglm::Float;

// ---------------------------------------------------------------- a loss
/// Huber loss, with a curvature bound twice as large as needed. Knows the design only through the
/// trait: column j is what a unit step of feature j adds to the model fit.
struct Huber<F: Float> {
    delta: F,
    cols: Vec<Array1<F>>,
    lip: Array1<F>,
    n: usize,
}
impl<F: Float> Huber<F> {
    fn new(delta: F) -> Self {
        Huber { delta, cols: vec![], lip: Array1::zeros(0), n: 0 }
    }
    fn setup<DM: DesignMatrix<Elem = F>>(&mut self, x: &DM, n: usize) {
        self.n = n;
        self.cols = (0..x.n_features())
            .map(|j| {
                let mut f = Array1::<F>::zeros(n);
                x.update_model_fit(&mut f, F::one(), j);
                f
            })
            .collect();
        self.lip = self.cols.iter().map(|c| c.dot(c) * F::cast(2.0) / F::cast(n as f64)).collect();
    }
    fn loss(&self, r: F) -> F {
        let a = r.abs();
        if a <= self.delta {
            a * a / F::cast(2.0)
        } else {
            self.delta * (a - self.delta / F::cast(2.0))
        }
    }
    fn slope(&self, r: F) -> F {
        r.max(-self.delta).min(self.delta)
    }
    fn seen<DM: DesignMatrix<Elem = F>>(&self, x: &DM, n: usize, fit: usize, j: usize) {
        assert!(self.n > 0, "used before being initialised");
        assert!(n == self.n && x.n_features() == self.cols.len(), "another data set than initialised on");
        assert!(fit == self.n, "model fit of another length");
        assert!(j <= self.cols.len(), "no such feature");
    }
}
impl<F: Float, DM: DesignMatrix<Elem = F>, T: AsSingleTargets<Elem = F>> Datafit<F, DM, T> for Huber<F> {
    fn initialize(&mut self, ds: &DatasetBase<DM, T>) {
        self.setup(ds.design_matrix(), ds.targets().n_samples());
    }
    fn value(&self, ds: &DatasetBase<DM, T>, Xw: ArrayView1<F>) -> F {
        self.seen(ds.design_matrix(), ds.targets().n_samples(), Xw.len(), 0);
        let y = ds.targets().try_single_target().unwrap();
        Xw.iter().zip(y.iter()).map(|(&f, &y)| self.loss(f - y)).sum::<F>() / F::cast(self.n as f64)
    }
    fn gradient_j(&self, ds: &DatasetBase<DM, T>, Xw: ArrayView1<F>, j: usize) -> F {
        self.seen(ds.design_matrix(), ds.targets().n_samples(), Xw.len(), j + 1);
        let y = ds.targets().try_single_target().unwrap();
        (0..self.n).map(|i| self.cols[j][i] * self.slope(Xw[i] - y[i])).sum::<F>() / F::cast(self.n as f64)
    }
    fn full_grad(&self, ds: &DatasetBase<DM, T>, Xw: ArrayView1<F>) -> Array1<F> {
        (0..self.cols.len()).map(|j| Datafit::gradient_j(self, ds, Xw, j)).collect()
    }
    fn step_size(&self) -> ArrayView1<F> {
        self.lip.view()
    }
}
impl<F: Float, DM: DesignMatrix<Elem = F>, T: AsMultiTargets<Elem = F>> MultiTaskDatafit<F, DM, T> for Huber<F> {
    fn initialize(&mut self, ds: &DatasetBase<DM, T>) {
        self.setup(ds.design_matrix(), ds.targets().n_samples());
    }
    fn value(&self, ds: &DatasetBase<DM, T>, XW: ArrayView2<F>) -> F {
        self.seen(ds.design_matrix(), ds.targets().n_samples(), XW.nrows(), 0);
        let y = ds.targets().as_multi_tasks();
        assert!(y.dim() == XW.dim(), "model fit of another shape");
        XW.iter().zip(y.iter()).map(|(&f, &y)| self.loss(f - y)).sum::<F>() / F::cast(self.n as f64)
    }
    fn gradient_j(&self, ds: &DatasetBase<DM, T>, XW: ArrayView2<F>, j: usize) -> Array1<F> {
        self.seen(ds.design_matrix(), ds.targets().n_samples(), XW.nrows(), j + 1);
        let y = ds.targets().as_multi_tasks();
        assert!(y.dim() == XW.dim(), "model fit of another shape");
        (0..y.ncols())
            .map(|k| {
                (0..self.n).map(|i| self.cols[j][i] * self.slope(XW[[i, k]] - y[[i, k]])).sum::<F>() / F::cast(self.n as f64)
            })
            .collect()
    }
    fn full_grad(&self, ds: &DatasetBase<DM, T>, XW: ArrayView2<F>) -> Array2<F> {
        let t = XW.ncols();
        let v: Vec<F> =
            (0..self.cols.len()).flat_map(|j| MultiTaskDatafit::gradient_j(self, ds, XW, j).to_vec()).collect();
        Array2::from_shape_vec((self.cols.len(), t), v).unwrap()
    }
    fn step_size(&self) -> ArrayView1<F> {
        self.lip.view()
    }
}

// ---------------------------------------------------------------- penalties
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// alpha sum w, infinite where a coefficient is negative
    NonNeg,
    /// alpha |w|^2 / 2
    Ridge,
    /// alpha on every non-zero coefficient; violation: the gap of the coordinate update
    L0,
    /// alpha sum |w|, entry by entry
    Entry,
    /// alpha sum |w - g|, entry by entry: not smallest at zero
    Anchor,
}
struct Own<F: Float> {
    kind: Kind,
    a: F,
    g: F,
}
impl<F: Float> Own<F> {
    fn one(&self, w: F) -> F {
        let z = F::zero();
        match self.kind {
            Kind::NonNeg if w < z => F::infinity(),
            Kind::NonNeg => self.a * w,
            Kind::Ridge => self.a * w * w / F::cast(2.0),
            Kind::L0 if w == z => z,
            Kind::L0 => self.a,
            Kind::Entry => self.a * w.abs(),
            Kind::Anchor => self.a * (w - self.g).abs(),
        }
    }
    fn shrink(&self, v: F, step: F) -> F {
        assert!(step > F::zero() && step.is_finite(), "step size");
        let (z, u) = (F::zero(), step * self.a);
        match self.kind {
            Kind::NonNeg => (v - u).max(z),
            Kind::Ridge => v / (F::one() + u),
            Kind::L0 if v * v <= F::cast(2.0) * u => z,
            Kind::L0 => v,
            Kind::Entry if v > u => v - u,
            Kind::Entry if v < -u => v + u,
            Kind::Entry => z,
            Kind::Anchor if v - self.g > u => v - u,
            Kind::Anchor if self.g - v > u => v + u,
            Kind::Anchor => self.g,
        }
    }
    fn dist(&self, w: F, g: F) -> F {
        let z = F::zero();
        match self.kind {
            Kind::NonNeg if w == z => (-g - self.a).max(z),
            Kind::NonNeg if w > z => (g + self.a).abs(),
            Kind::NonNeg => F::infinity(),
            Kind::Ridge => (g + self.a * w).abs(),
            Kind::L0 => z,
            Kind::Entry if w == z => (g.abs() - self.a).max(z),
            Kind::Entry => (g + self.a * w.signum()).abs(),
            Kind::Anchor if w == self.g => (g.abs() - self.a).max(z),
            Kind::Anchor => (g + self.a * (w - self.g).signum()).abs(),
        }
    }
}
fn largest<F: Float>(d: Array1<F>) -> (Array1<F>, F) {
    let m = d.iter().fold(F::zero(), |m, &x| if x > m { x } else { m });
    (d, m)
}
impl<F: Float> Penalty<F> for Own<F> {
    fn value(&self, w: ArrayView1<F>) -> F {
        w.iter().map(|&x| self.one(x)).sum()
    }
    fn prox(&self, v: F, step: F) -> F {
        self.shrink(v, step)
    }
    fn subdiff_distance(&self, w: ArrayView1<F>, g: ArrayView1<F>, ws: ArrayView1<usize>) -> (Array1<F>, F) {
        assert!(g.len() == ws.len(), "one gradient entry per feature of the working set");
        largest(ws.iter().zip(g.iter()).map(|(&j, &g)| self.dist(w[j], g)).collect())
    }
    fn opt_violation(
        &self,
        w: ArrayView1<F>,
        g: ArrayView1<F>,
        lip: ArrayView1<F>,
        ws: ArrayView1<usize>,
    ) -> (Array1<F>, F) {
        assert!(lip.len() == w.len(), "one curvature bound per feature");
        if self.kind != Kind::L0 {
            return Penalty::subdiff_distance(self, w, g, ws);
        }
        assert!(g.len() == ws.len(), "one gradient entry per feature of the working set");
        largest(
            ws.iter()
                .zip(g.iter())
                .map(|(&j, &g)| {
                    if lip[j] == F::zero() {
                        F::zero()
                    } else {
                        (w[j] - self.shrink(w[j] - g / lip[j], F::one() / lip[j])).abs()
                    }
                })
                .collect(),
        )
    }
}
impl<F: Float> MultiTaskPenalty<F> for Own<F> {
    fn value(&self, W: ArrayView2<F>) -> F {
        W.iter().map(|&x| self.one(x)).sum()
    }
    fn prox(&self, v: ArrayView1<F>, step: F) -> Array1<F> {
        v.iter().map(|&x| self.shrink(x, step)).collect()
    }
    fn subdiff_distance(&self, W: ArrayView2<F>, g: ArrayView2<F>, ws: ArrayView1<usize>) -> (Array1<F>, F) {
        assert!(g.dim() == (ws.len(), W.ncols()), "one gradient row per feature of the working set");
        largest(
            ws.iter()
                .enumerate()
                .map(|(i, &j)| {
                    let d: Array1<F> = (0..W.ncols()).map(|k| self.dist(W[[j, k]], g[[i, k]])).collect();
                    if d.len() == 1 {
                        d[0]
                    } else {
                        d.dot(&d).sqrt()
                    }
                })
                .collect(),
        )
    }
}

// ---------------------------------------------------------------- a witness
/// A penalty that notes the step of every proximal update it is asked for.
struct Spy<'a, P> {
    pen: P,
    log: &'a RefCell<Vec<f64>>,
}
impl<P: Penalty<f64>> Penalty<f64> for Spy<'_, P> {
    fn value(&self, w: ArrayView1<f64>) -> f64 {
        self.pen.value(w)
    }
    fn prox(&self, v: f64, step: f64) -> f64 {
        self.log.borrow_mut().push(step);
        self.pen.prox(v, step)
    }
    fn subdiff_distance(&self, w: ArrayView1<f64>, g: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        self.pen.subdiff_distance(w, g, ws)
    }
    fn opt_violation(
        &self,
        w: ArrayView1<f64>,
        g: ArrayView1<f64>,
        lip: ArrayView1<f64>,
        ws: ArrayView1<usize>,
    ) -> (Array1<f64>, f64) {
        self.pen.opt_violation(w, g, lip, ws)
    }
}
impl<P: MultiTaskPenalty<f64>> MultiTaskPenalty<f64> for Spy<'_, P> {
    fn value(&self, W: ArrayView2<f64>) -> f64 {
        self.pen.value(W)
    }
    fn prox(&self, v: ArrayView1<f64>, step: f64) -> Array1<f64> {
        self.log.borrow_mut().push(step);
        self.pen.prox(v, step)
    }
    fn subdiff_distance(&self, W: ArrayView2<f64>, g: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        self.pen.subdiff_distance(W, g, ws)
    }
}

// ---------------------------------------------------------------- a design and targets
/// A design stored as a list of columns.
#[derive(Debug, Clone, PartialEq)]
struct Columns<F: Float> {
    cols: Vec<Vec<F>>,
    sparse: bool,
}
impl<F: Float> Columns<F> {
    fn of(x: &Array2<F>, sparse: bool) -> Self {
        Columns { cols: x.columns().into_iter().map(|c| c.to_vec()).collect(), sparse }
    }
}
impl<F: Float> DesignMatrix for Columns<F> {
    type Elem = F;
    fn n_features(&self) -> usize {
        self.cols.len()
    }
    fn matrix_type(&self) -> DesignMatrixType {
        if self.sparse {
            DesignMatrixType::Sparse
        } else {
            DesignMatrixType::Dense
        }
    }
    fn compute_extrapolated_fit(&self, ws: ArrayView1<usize>, w: &Array1<F>, n: usize) -> Array1<F> {
        let mut f = Array1::zeros(n);
        ws.iter().for_each(|&j| self.update_model_fit(&mut f, w[j], j));
        f
    }
    fn compute_extrapolated_fit_multi_task(&self, ws: ArrayView1<usize>, W: &Array2<F>, n: usize, t: usize) -> Array2<F> {
        let mut f = Array2::zeros((n, t));
        ws.iter().for_each(|&j| self.update_model_fit_multi_task(&mut f, W.row(j), j));
        f
    }
    fn update_model_fit(&self, Xw: &mut Array1<F>, d: F, j: usize) {
        assert!(Xw.len() == self.cols[j].len(), "model fit of another length");
        self.cols[j].iter().enumerate().for_each(|(i, &x)| Xw[i] += x * d);
    }
    fn update_model_fit_multi_task(&self, XW: &mut Array2<F>, d: ArrayView1<F>, j: usize) {
        assert!(XW.dim() == (self.cols[j].len(), d.len()), "model fit of another shape");
        for (i, &x) in self.cols[j].iter().enumerate() {
            for (k, &d) in d.iter().enumerate() {
                XW[[i, k]] += x * d;
            }
        }
    }
}
/// Targets behind a user-defined type; counts come from its own methods.
#[derive(Debug, Clone, PartialEq)]
struct Wrapped<F: Float>(Array2<F>);
impl<F: Float> AsMultiTargets for Wrapped<F> {
    type Elem = F;
    fn n_samples(&self) -> usize {
        self.0.nrows()
    }
    fn n_tasks(&self) -> usize {
        self.0.ncols()
    }
    fn as_multi_tasks(&self) -> ArrayView2<F> {
        self.0.view()
    }
}
impl<F: Float> AsSingleTargets for Wrapped<F> {}

// ---------------------------------------------------------------- running
type F = f64;
fn own(v: &Value) -> Option<Own<F>> {
    let kind = match v[0].as_str().unwrap() {
        "nn" => Kind::NonNeg,
        "ridge" => Kind::Ridge,
        "l0" => Kind::L0,
        "el1" => Kind::Entry,
        "tgt" => Kind::Anchor,
        _ => return None,
    };
    Some(Own { kind, a: fl(&v[1]), g: fl(&v[2]) })
}
thread_local! {
    static LOG: RefCell<Vec<f64>> = const { RefCell::new(vec![]) };
}
/// Runs the solver, noting the updates if asked to.
macro_rules! solved {
    ($sol:ident . $solve:ident, $ok:ident, $ds:expr, $df:expr, $pen:expr, $spy:expr) => {{
        if !$spy {
            return $ok($sol.$solve($ds, &mut $df, &$pen).unwrap());
        }
        let log = RefCell::new(vec![]);
        let r = $ok($sol.$solve($ds, &mut $df, &Spy { pen: $pen, log: &log }).unwrap());
        LOG.with(|l| l.replace(log.into_inner()));
        r
    }};
}
fn single<DM, T, D>(ds: &DatasetBase<DM, T>, mut df: D, pen: &Value, sol: &Solver<F>, spy: bool) -> Value
where
    DM: DesignMatrix<Elem = F>,
    T: AsSingleTargets<Elem = F>,
    D: Datafit<F, DM, T>,
{
    let (a, g): (F, F) = (fl(&pen[1]), fl(&pen[2]));
    if let Some(o) = own(pen) {
        return solved!(sol.solve, ok1, ds, df, o, spy);
    }
    match pen[0].as_str().unwrap() {
        "l1" => solved!(sol.solve, ok1, ds, df, L1::new(a), spy),
        "en" => solved!(sol.solve, ok1, ds, df, L1PlusL2::new(a, g), spy),
        "mcp" => solved!(sol.solve, ok1, ds, df, MCP::new(a, g), spy),
        "l05" => solved!(sol.solve, ok1, ds, df, L05::new(a), spy),
        x => panic!("penalty {x}"),
    }
}
fn multi<DM, T, D>(ds: &DatasetBase<DM, T>, mut df: D, pen: &Value, sol: &Solver<F>, spy: bool) -> Value
where
    DM: DesignMatrix<Elem = F>,
    T: AsMultiTargets<Elem = F>,
    D: MultiTaskDatafit<F, DM, T>,
{
    let (a, g): (F, F) = (fl(&pen[1]), fl(&pen[2]));
    if let Some(o) = own(pen) {
        return solved!(sol.solve_multi_task, ok2, ds, df, o, spy);
    }
    match pen[0].as_str().unwrap() {
        "l21" => solved!(sol.solve_multi_task, ok2, ds, df, L21::new(a), spy),
        "ben" => solved!(sol.solve_multi_task, ok2, ds, df, BlockL1PlusL2::new(a, g), spy),
        "bmcp" => solved!(sol.solve_multi_task, ok2, ds, df, BlockMCP::new(a, g), spy),
        x => panic!("penalty {x}"),
    }
}
/// The built-in losses exist for the built-in designs, the user's for any.
macro_rules! with_loss {
    ($v:expr, $d:expr, $sol:expr, $spy:expr) => {{
        let (v, d, sol, pen, spy) = ($v, $d, $sol, &$v["pen"], $spy);
        let block = v["block"].as_bool().unwrap();
        match st(v, "df") {
            "huber" if d.fmt == "own" => {
                let x = Columns::of(&d.x, v["sparse"].as_bool().unwrap_or(false));
                let ds = DatasetBase::new(x, Wrapped(d.y.clone()));
                let df = Huber::new(fl::<F>(&v["delta"]));
                if block { multi(&ds, df, pen, sol, spy) } else { single(&ds, df, pen, sol, spy) }
            }
            "huber" => on_design!(d, x => {
                let df = Huber::new(fl::<F>(&v["delta"]));
                if block {
                    on_target2!(d, y => multi(&DatasetBase::new(x.clone(), y), df, pen, sol, spy))
                } else {
                    on_target1!(d, y => single(&DatasetBase::new(x.clone(), y), df, pen, sol, spy))
                }
            }),
            "mt" => on_design!(d, x => multi(&DatasetBase::new(x.clone(), Wrapped(d.y.clone())), QuadraticMultiTask::new(), pen, sol, spy)),
            "quad" => on_design!(d, x => single(&DatasetBase::new(x.clone(), Wrapped(d.y.clone())), Quadratic::new(), pen, sol, spy)),
            "logit" => on_design!(d, x => single(&DatasetBase::new(x.clone(), Wrapped(d.y.clone())), Logistic::new(), pen, sol, spy)),
            x => panic!("datafit {x}"),
        }
    }};
}
macro_rules! estimate {
    ($E:ident . $g:ident, $ok:ident, $v:expr, $d:expr) => {{
        let c = cfg::<F>(&$v["cfg"]);
        let (a, g): (F, F) = (fl(&$v["pen"][1]), fl(&$v["pen"][2]));
        let p = with_cfg!($E::params().alpha(a), c);
        let p = if stringify!($g) == "alpha" { p } else { p.$g(g) };
        on_design!($d, x => match p.fit(&DatasetBase::new(x.clone(), Wrapped($d.y.clone()))) {
            Ok(m) => $ok(m.coefficients().to_owned()),
            Err(e) => json!({ "err": format!("{:?}", e) }),
        })
    }};
}
fn run(v: &Value) -> Value {
    let d = &data::<F>(v);
    let sol = &solver(&cfg::<F>(&v["cfg"]));
    if v["api"].as_str() == Some("est") {
        return match st(v, "pen0") {
            "l1" => estimate!(Lasso.alpha, ok1, v, d),
            "en" => estimate!(ElasticNet.l1_ratio, ok1, v, d),
            "mcp" => estimate!(MCPEstimator.gamma, ok1, v, d),
            "l21" => estimate!(MultiTaskLasso.alpha, ok2, v, d),
            "ben" => estimate!(MultiTaskElasticNet.l1_ratio, ok2, v, d),
            "bmcp" => estimate!(BlockMCPEstimator.gamma, ok2, v, d),
            x => panic!("estimator {x}"),
        };
    }
    if st(v, "op") == "visits" {
        return visits(v, d);
    }
    with_loss!(v, d, sol, false)
}
/// The updates made under every budget of outer iterations up to the given one, by the feature whose
/// curvature bound the step belongs to, and the coefficients they lead to.
fn visits(v: &Value, d: &Data_<F>) -> Value {
    let c = cfg::<F>(&v["cfg"]);
    let steps: Vec<F> = v["steps"].as_array().unwrap().iter().map(fl).collect();
    let feature = |s: &F| steps.iter().position(|t| (s - t).abs() <= 1e-6 * t).map_or(-1, |j| j as i64);
    let runs: Vec<Value> = (0..=c.it)
        .map(|it| {
            let mut sol = solver(&c);
            sol.max_iterations = it;
            let r = with_loss!(v, d, &sol, true);
            let log = LOG.with(|l| l.take());
            json!({ "w": r["w"], "shape": r["shape"], "log": log.iter().map(feature).collect::<Vec<_>>() })
        })
        .collect();
    json!({ "runs": runs })
}
fn main() {
    serve(run);
}
