//! Executes scripts of public API calls against the sparseglm of /repo and records the results.
//! It judges nothing: the Quint specification does.
#![allow(non_snake_case)]
mod common;
#[macro_use]
mod data;
use common::*;
use data::*;
use ndarray::{s, Array1, Array2, ArrayBase, Data, Ix2};
use serde_json::{json, Value};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::{
    BlockMCPEstimator, ElasticNet, Lasso, MCPEstimator, MultiTaskElasticNet, MultiTaskLasso,
};
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::param_guard::ParamGuard;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};
use sparseglm::utils::{helpers, prox_funcs};
use sparseglm::Float;

// ---------------------------------------------------------------- penalties
enum Pen<F: Float> {
    L1(L1<F>),
    En(L1PlusL2<F>),
    Mcp(MCP<F>),
    L05(L05<F>),
    L21(L21<F>),
    Ben(BlockL1PlusL2<F>),
    Bmcp(BlockMCP<F>),
}
fn pen<F: Float>(v: &Value) -> Pen<F> {
    let a: F = fl(&v[1]);
    let g: F = fl(&v[2]);
    match v[0].as_str().unwrap() {
        "l1" => Pen::L1(L1::new(a)),
        "en" => Pen::En(L1PlusL2::new(a, g)),
        "mcp" => Pen::Mcp(MCP::new(a, g)),
        "l05" => Pen::L05(L05::new(a)),
        "l21" => Pen::L21(L21::new(a)),
        "ben" => Pen::Ben(BlockL1PlusL2::new(a, g)),
        "bmcp" => Pen::Bmcp(BlockMCP::new(a, g)),
        x => panic!("penalty {x}"),
    }
}
macro_rules! sep {
    ($p:expr, $q:ident => $e:expr) => {
        match $p {
            Pen::L1($q) => $e,
            Pen::En($q) => $e,
            Pen::Mcp($q) => $e,
            Pen::L05($q) => $e,
            _ => panic!("not a separable penalty"),
        }
    };
}
macro_rules! blk {
    ($p:expr, $q:ident => $e:expr) => {
        match $p {
            Pen::L21($q) => $e,
            Pen::Ben($q) => $e,
            Pen::Bmcp($q) => $e,
            _ => panic!("not a block penalty"),
        }
    };
}

// ---------------------------------------------------------------- estimators
enum Est<F: Float> {
    Lasso(LassoParams<F>),
    En(ElasticNetParams<F>),
    Mcp(MCParams<F>),
    Mtl(MultiTaskLassoParams<F>),
    Men(MultiTaskElasticNetParams<F>),
    Bmcp(BlockMCParams<F>),
}
fn est<F: Float>(p: &Value, c: &Cfg<F>) -> Est<F> {
    let a: F = fl(&p[1]);
    let g: F = fl(&p[2]);
    match p[0].as_str().unwrap() {
        "l1" => Est::Lasso(with_cfg!(Lasso::params().alpha(a), c)),
        "en" => Est::En(with_cfg!(ElasticNet::params().alpha(a).l1_ratio(g), c)),
        "mcp" => Est::Mcp(with_cfg!(MCPEstimator::params().alpha(a).gamma(g), c)),
        "l21" => Est::Mtl(with_cfg!(MultiTaskLasso::params().alpha(a), c)),
        "ben" => Est::Men(with_cfg!(MultiTaskElasticNet::params().alpha(a).l1_ratio(g), c)),
        "bmcp" => Est::Bmcp(with_cfg!(BlockMCPEstimator::params().alpha(a).gamma(g), c)),
        x => panic!("estimator {x}"),
    }
}
fn err(e: EstimatorError) -> Value {
    json!({ "err": format!("{:?}", e), "msg": format!("{}", e) })
}
macro_rules! fit_single {
    ($e:expr, $ds:expr) => {
        match $e {
            Est::Lasso(p) => match p.fit($ds) {
                Ok(m) => ok1(m.coefficients().to_owned()),
                Err(x) => err(x),
            },
            Est::En(p) => match p.fit($ds) {
                Ok(m) => ok1(m.coefficients().to_owned()),
                Err(x) => err(x),
            },
            Est::Mcp(p) => match p.fit($ds) {
                Ok(m) => ok1(m.coefficients().to_owned()),
                Err(x) => err(x),
            },
            _ => panic!("not a single-task estimator"),
        }
    };
}
macro_rules! fit_multi {
    ($e:expr, $ds:expr) => {
        match $e {
            Est::Mtl(p) => match p.fit($ds) {
                Ok(m) => ok2(m.coefficients().to_owned()),
                Err(x) => err(x),
            },
            Est::Men(p) => match p.fit($ds) {
                Ok(m) => ok2(m.coefficients().to_owned()),
                Err(x) => err(x),
            },
            Est::Bmcp(p) => match p.fit($ds) {
                Ok(m) => ok2(m.coefficients().to_owned()),
                Err(x) => err(x),
            },
            _ => panic!("not a multi-task estimator"),
        }
    };
}

enum Df<F: Float> {
    Quad(Quadratic<F>),
    Logit(Logistic<F>),
    Mt(QuadraticMultiTask<F>),
}
fn datafit<F: Float>(s: &str) -> Df<F> {
    match s {
        "quad" => Df::Quad(Quadratic::new()),
        "logit" => Df::Logit(Logistic::new()),
        "mt" => Df::Mt(QuadraticMultiTask::new()),
        x => panic!("datafit {x}"),
    }
}

fn solve_with<F: Float + 'static>(d: &Data_<F>, df: &mut Df<F>, p: &Pen<F>, s: &Solver<F>) -> Value {
    match df {
        Df::Mt(df) => on_design!(d, x => on_target2!(d, y => {
            let ds = DatasetBase::from((x.clone(), y));
            let w = blk!(p, q => s.solve_multi_task(&ds, df, q)).unwrap();
            let mut r = ok2(w);
            r["same"] = json!(ds.design_matrix() == &x);
            r
        })),
        Df::Quad(df) => on_design!(d, x => on_target1!(d, y => {
            let ds = DatasetBase::from((x.clone(), y));
            let w = sep!(p, q => s.solve(&ds, df, q)).unwrap();
            let mut r = ok1(w);
            r["same"] = json!(ds.design_matrix() == &x);
            r
        })),
        Df::Logit(df) => on_design!(d, x => on_target1!(d, y => {
            let ds = DatasetBase::from((x.clone(), y));
            let w = sep!(p, q => s.solve(&ds, df, q)).unwrap();
            let mut r = ok1(w);
            r["same"] = json!(ds.design_matrix() == &x);
            r
        })),
    }
}
fn fit_with<F: Float + 'static>(d: &Data_<F>, e: &Est<F>) -> Value {
    match e {
        Est::Mtl(_) | Est::Men(_) | Est::Bmcp(_) => on_design!(d, x => on_target2!(d, y => {
            let ds = DatasetBase::from((x.clone(), y));
            let mut r = fit_multi!(e, &ds);
            r["same"] = json!(ds.design_matrix() == &x);
            r
        })),
        _ => on_design!(d, x => on_target1!(d, y => {
            let ds = DatasetBase::from((x.clone(), y));
            let mut r = fit_single!(e, &ds);
            r["same"] = json!(ds.design_matrix() == &x);
            r
        })),
    }
}

fn op_solve<F: Float + 'static>(v: &Value) -> Value {
    let d = data::<F>(v);
    let c = cfg::<F>(&v["cfg"]);
    match v["api"].as_str().unwrap_or("solver") {
        "solver" => solve_with(&d, &mut datafit(st(v, "df")), &pen(&v["pen"]), &solver(&c)),
        "est" => fit_with(&d, &est(&v["pen"], &c)),
        x => panic!("api {x}"),
    }
}

/// A history of solves on shared objects. `objs`: {"kind":"est"|"solver", pen, cfg, df};
/// `acts`: [object, dataset]. Data sets are built once and shared by reference.
fn op_session<F: Float + 'static>(v: &Value) -> Value {
    let ds: Vec<Data_<F>> = v["datasets"].as_array().unwrap().iter().map(data).collect();
    enum Obj<F: Float> {
        E(Est<F>),
        S(Df<F>, Pen<F>, Solver<F>),
    }
    let mut objs: Vec<Obj<F>> = v["objs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|o| {
            let c = cfg::<F>(&o["cfg"]);
            match st(o, "kind") {
                "est" => Obj::E(est(&o["pen"], &c)),
                _ => Obj::S(datafit(st(o, "df")), pen(&o["pen"]), solver(&c)),
            }
        })
        .collect();
    let before: Vec<String> = ds.iter().map(|d| format!("{:?}{:?}", d.x, d.y)).collect();
    let mut res = vec![];
    for a in v["acts"].as_array().unwrap() {
        let o = a[0].as_u64().unwrap() as usize;
        let d = a[1].as_u64().unwrap() as usize;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &mut objs[o] {
            Obj::E(e) => fit_with(&ds[d], e),
            Obj::S(df, p, s) => solve_with(&ds[d], df, p, s),
        }));
        res.push(r.unwrap_or_else(|_| json!({ "panic": "panic" })));
    }
    let same = ds.iter().zip(&before).all(|(d, b)| &format!("{:?}{:?}", d.x, d.y) == b);
    json!({ "results": res, "same": same })
}

// ---------------------------------------------------------------- primitives
fn op_pen<F: Float + 'static>(v: &Value) -> Value {
    let p = pen::<F>(&v["pen"]);
    let block = matches!(&p, Pen::L21(_) | Pen::Ben(_) | Pen::Bmcp(_));
    match st(v, "what") {
        "prox" => {
            let x = vec1::<F>(&v["v"]);
            let step: F = fl(&v["step"]);
            if block {
                let u = blk!(&p, q => q.prox(x.view(), step));
                json!({ "u": out1(&u) })
            } else {
                let u: Vec<Value> = sep!(&p, q => x.iter().map(|&a| bits(q.prox(a, step))).collect());
                json!({ "u": u })
            }
        }
        "value" => {
            let (r, c) = (us(v, "p"), us(v, "T"));
            let w = mat::<F>(&v["w"], r, c);
            let val: F = if block {
                blk!(&p, q => q.value(w.view()))
            } else {
                sep!(&p, q => q.value(w.slice(s![.., 0])))
            };
            json!({ "val": bits(val) })
        }
        "dist" => {
            let (r, c) = (us(v, "p"), us(v, "T"));
            let w = mat::<F>(&v["w"], r, c);
            let ws = uvec(&v["ws"]);
            let g = mat::<F>(&v["grad"], ws.len(), c);
            let (d, m): (Array1<F>, F) = if block {
                blk!(&p, q => q.subdiff_distance(w.view(), g.view(), ws.view()))
            } else {
                sep!(&p, q => q.subdiff_distance(w.slice(s![.., 0]), g.slice(s![.., 0]), ws.view()))
            };
            json!({ "dist": out1(&d), "max": bits(m) })
        }
        x => panic!("what {x}"),
    }
}

fn df_single<F: Float, DM: DesignMatrix<Elem = F>, T: AsSingleTargets<Elem = F>, D: Datafit<F, DM, T>>(
    ds: &DatasetBase<DM, T>,
    df: &mut D,
    fits: &[Array2<F>],
) -> Value {
    df.initialize(ds);
    let p = ds.design_matrix().n_features();
    let steps = out1(&df.step_size().to_owned());
    let mut vals = vec![];
    let mut grads = vec![];
    let mut full = vec![];
    for f in fits {
        let f = f.slice(s![.., 0]);
        vals.push(bits(df.value(ds, f)));
        grads.push(Value::Array((0..p).map(|j| bits(df.gradient_j(ds, f, j))).collect()));
        full.push(out1(&df.full_grad(ds, f)));
    }
    json!({ "steps": steps, "vals": vals, "grads": grads, "full": full })
}
fn df_multi<F: Float, DM: DesignMatrix<Elem = F>, T: AsMultiTargets<Elem = F>, D: MultiTaskDatafit<F, DM, T>>(
    ds: &DatasetBase<DM, T>,
    df: &mut D,
    fits: &[Array2<F>],
) -> Value {
    df.initialize(ds);
    let p = ds.design_matrix().n_features();
    let steps = out1(&df.step_size().to_owned());
    let mut vals = vec![];
    let mut grads = vec![];
    let mut full = vec![];
    for f in fits {
        let f = f.view();
        vals.push(bits(df.value(ds, f)));
        let mut g = vec![];
        for j in 0..p {
            for x in df.gradient_j(ds, f, j).iter() {
                g.push(bits(*x));
            }
        }
        grads.push(Value::Array(g));
        let fg = df.full_grad(ds, f);
        full.push(json!({ "shape": [fg.dim().0, fg.dim().1], "g": out2(&fg) }));
    }
    json!({ "steps": steps, "vals": vals, "grads": grads, "full": full })
}
fn df_eval<F: Float + 'static>(d: &Data_<F>, df: &mut Df<F>, fits: &[Array2<F>]) -> Value {
    match df {
        Df::Mt(q) => on_design!(d, x => on_target2!(d, y => {
            let ds = DatasetBase::from((x, y));
            let mut r = df_multi(&ds, q, fits);
            let k = q.XtY().to_owned();
            r["rhs"] = json!({ "shape": [k.dim().0, k.dim().1], "g": out2(&k) });
            r
        })),
        Df::Quad(q) => on_design!(d, x => on_target1!(d, y => {
            let ds = DatasetBase::from((x, y));
            df_single(&ds, q, fits)
        })),
        Df::Logit(q) => on_design!(d, x => on_target1!(d, y => {
            let ds = DatasetBase::from((x, y));
            df_single(&ds, q, fits)
        })),
    }
}
fn op_df<F: Float + 'static>(v: &Value) -> Value {
    let mut df = datafit::<F>(st(v, "df"));
    let mut res = vec![];
    // the same loss object is initialised on each data set in turn
    for dv in v["datasets"].as_array().unwrap() {
        let d = data::<F>(dv);
        let t = d.y.dim().1;
        let n = d.y.dim().0;
        let fits: Vec<Array2<F>> =
            dv["fits"].as_array().unwrap().iter().map(|f| mat(f, n, t)).collect();
        res.push(df_eval(&d, &mut df, &fits));
    }
    json!({ "results": res })
}

fn op_prim<F: Float + 'static>(v: &Value) -> Value {
    match st(v, "what") {
        "soft" => json!({ "u": bits(prox_funcs::soft_thresholding::<F>(fl(&v["x"]), fl(&v["t"]))) }),
        "bsoft" => {
            let x = vec1::<F>(&v["x"]);
            json!({ "u": out1(&prox_funcs::block_soft_thresholding(x.view(), fl(&v["t"]))) })
        }
        "prox05" => json!({ "u": bits(prox_funcs::prox_05::<F>(fl(&v["x"]), fl(&v["t"]))) }),
        "sigmoid" => json!({ "u": bits(helpers::sigmoid::<F>(fl(&v["x"]))) }),
        "amax" => {
            let d = data::<F>(v);
            let r: F = match d.fmt.as_str() {
                "csc" => {
                    let (a, b, c) = d.csc.as_ref().unwrap();
                    let x = CSCArray::new(a.view(), b.view(), c.view());
                    helpers::compute_alpha_max_sparse(&x, d.y.slice(s![.., 0]))
                }
                "f" => {
                    let x = fort(&d.x);
                    if d.ymat {
                        helpers::compute_alpha_max_mtl(x.view(), d.y.view())
                    } else {
                        helpers::compute_alpha_max(x.view(), d.y.slice(s![.., 0]))
                    }
                }
                _ => {
                    let (bx, by) = (stored(&d.x, &d.fmt), stored(&d.y, &d.fmt));
                    let (x, y) = (seen(&bx, &d.fmt, d.x.dim()), seen(&by, &d.fmt, d.y.dim()));
                    if d.ymat {
                        helpers::compute_alpha_max_mtl(x, y)
                    } else {
                        helpers::compute_alpha_max(x, y.slice(s![.., 0]))
                    }
                }
            };
            json!({ "u": bits(r) })
        }
        "argsort" => {
            let a = vec1::<F>(&v["x"]);
            let desc = v["desc"].as_bool().unwrap();
            let r = helpers::argsort_by(&a, |x, y| {
                if desc {
                    y.partial_cmp(x).unwrap()
                } else {
                    x.partial_cmp(y).unwrap()
                }
            });
            json!({ "idx": r })
        }
        "linsys" => {
            let n = us(v, "n");
            let a = mat::<F>(&v["A"], n, n);
            let b = vec1::<F>(&v["b"]);
            let (a0, b0) = (a.clone(), b.clone());
            let r = helpers::solve_lin_sys(a.view(), b.view());
            let same = a == a0 && b == b0;
            match r {
                Ok(x) => json!({ "x": out1(&x), "same": same }),
                Err(e) => json!({ "err": e, "same": same }),
            }
        }
        x => panic!("prim {x}"),
    }
}

// ---------------------------------------------------------------- builders and validation
macro_rules! apply_calls {
    ($p:ident, $calls:expr, $extra:ident) => {
        for c in $calls {
            let k = c[0].as_str().unwrap();
            $p = match k {
                "alpha" => $p.alpha(fl(&c[1])),
                "extra" => $p.$extra(fl(&c[1])),
                "max_iterations" => $p.max_iterations(c[1].as_u64().unwrap() as usize),
                "max_epochs" => $p.max_epochs(c[1].as_u64().unwrap() as usize),
                "ws_start_size" => $p.ws_start_size(c[1].as_u64().unwrap() as usize),
                "tolerance" => $p.tolerance(fl(&c[1])),
                "K" => $p.K(c[1].as_u64().unwrap() as usize),
                "use_acceleration" => $p.use_acceleration(c[1].as_bool().unwrap()),
                "verbose" => $p.verbose(c[1].as_bool().unwrap()),
                _ => panic!("setter {k}"),
            };
        }
    };
}
macro_rules! getters {
    ($c:expr, $extra:ident) => {
        json!({
            "alpha": bits($c.alpha()), "extra": bits($c.$extra()),
            "max_iterations": $c.max_iterations(), "max_epochs": $c.max_epochs(),
            "ws_start_size": $c.ws_start_size(), "tolerance": bits($c.tolerance()), "K": $c.K(),
            "use_acceleration": $c.use_acceleration(), "verbose": $c.verbose()
        })
    };
}
macro_rules! params_report {
    ($p:expr, $extra:ident, $fit:ident, $v:expr) => {{
        let p = $p;
        let by_ref = match p.check_ref() {
            Ok(c) => getters!(c, $extra),
            Err(e) => err(e),
        };
        let by_val = match p.clone().check() {
            Ok(c) => getters!(c, $extra),
            Err(e) => err(e),
        };
        let unwrap = {
            let q = p.clone();
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| q.check_unwrap())) {
                Ok(c) => getters!(c, $extra),
                Err(_) => json!({ "panic": true }),
            }
        };
        let d = data::<F>(&$v["dense"]);
        let sp = data::<F>(&$v["sparse"]);
        let p0 = p.clone();
        let e = $fit(p);
        let fit_dense = fit_with(&d, &e);
        let fit_sparse = fit_with(&sp, &e);
        let unchanged = $fit(p0) == e;
        json!({ "ref": by_ref, "val": by_val, "unwrap": unwrap, "dense": fit_dense,
                "sparse": fit_sparse, "unchanged": unchanged })
    }};
}
impl<F: Float> PartialEq for Est<F> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Est::Lasso(a), Est::Lasso(b)) => a == b,
            (Est::En(a), Est::En(b)) => a == b,
            (Est::Mcp(a), Est::Mcp(b)) => a == b,
            (Est::Mtl(a), Est::Mtl(b)) => a == b,
            (Est::Men(a), Est::Men(b)) => a == b,
            (Est::Bmcp(a), Est::Bmcp(b)) => a == b,
            _ => false,
        }
    }
}
fn op_params<F: Float + 'static>(v: &Value) -> Value {
    let calls = v["calls"].as_array().unwrap();
    let viadef = v["default"].as_bool().unwrap_or(false);
    macro_rules! mk {
        ($E:ident, $P:ident) => {
            if viadef {
                $P::<F>::default()
            } else {
                $E::<F>::params()
            }
        };
    }
    let (eLasso, eEn, eMcp) = (Est::Lasso as fn(_) -> Est<F>, Est::En as fn(_) -> Est<F>, Est::Mcp as fn(_) -> Est<F>);
    let (eMtl, eMen, eBmcp) = (Est::Mtl as fn(_) -> Est<F>, Est::Men as fn(_) -> Est<F>, Est::Bmcp as fn(_) -> Est<F>);
    match st(v, "est") {
        "l1" => {
            let mut p = mk!(Lasso, LassoParams);
            apply_calls!(p, calls, alpha);
            params_report!(p, alpha, eLasso, v)
        }
        "en" => {
            let mut p = mk!(ElasticNet, ElasticNetParams);
            apply_calls!(p, calls, l1_ratio);
            params_report!(p, l1_ratio, eEn, v)
        }
        "mcp" => {
            let mut p = mk!(MCPEstimator, MCParams);
            apply_calls!(p, calls, gamma);
            params_report!(p, gamma, eMcp, v)
        }
        "l21" => {
            let mut p = mk!(MultiTaskLasso, MultiTaskLassoParams);
            apply_calls!(p, calls, alpha);
            params_report!(p, alpha, eMtl, v)
        }
        "ben" => {
            let mut p = mk!(MultiTaskElasticNet, MultiTaskElasticNetParams);
            apply_calls!(p, calls, l1_ratio);
            params_report!(p, l1_ratio, eMen, v)
        }
        "bmcp" => {
            let mut p = mk!(BlockMCPEstimator, BlockMCParams);
            apply_calls!(p, calls, gamma);
            params_report!(p, gamma, eBmcp, v)
        }
        x => panic!("est {x}"),
    }
}
fn op_solver<F: Float>(v: &Value) -> Value {
    let mut s = if v["default"].as_bool().unwrap_or(false) { Solver::<F>::default() } else { Solver::<F>::new() };
    for c in v["calls"].as_array().unwrap() {
        let k = c[0].as_str().unwrap();
        s = match k {
            "max_iterations" => s.max_iterations(c[1].as_u64().unwrap() as usize),
            "max_epochs" => s.max_epochs(c[1].as_u64().unwrap() as usize),
            "ws_start_size" => s.ws_start_size(c[1].as_u64().unwrap() as usize),
            "tolerance" => s.tolerance(fl(&c[1])),
            "K" => s.K(c[1].as_u64().unwrap() as usize),
            "use_acceleration" => s.use_acceleration(c[1].as_bool().unwrap()),
            "verbose" => s.verbose(c[1].as_bool().unwrap()),
            _ => panic!("setter {k}"),
        };
    }
    json!({ "ref": {
        "max_iterations": s.max_iterations, "max_epochs": s.max_epochs, "ws_start_size": s.ws_start_size,
        "tolerance": bits(s.tolerance), "K": s.K, "use_acceleration": s.use_acceleration, "verbose": s.verbose } })
}

// ---------------------------------------------------------------- data sets and targets
/// A user-defined target type: a matrix that claims to be castable to a vector.
#[derive(Debug, Clone, PartialEq)]
struct Mine<F: Float>(Array2<F>);
impl<F: Float> AsMultiTargets for Mine<F> {
    type Elem = F;
    fn n_samples(&self) -> usize {
        self.0.nrows()
    }
    fn n_tasks(&self) -> usize {
        self.0.ncols()
    }
    fn as_multi_tasks(&self) -> ndarray::ArrayView2<F> {
        self.0.view()
    }
}
impl<F: Float> AsSingleTargets for Mine<F> {}

fn targets_report<F: Float, T: AsMultiTargets<Elem = F>>(t: &T) -> Value {
    let m = t.as_multi_tasks();
    json!({ "n": t.n_samples(), "T": t.n_tasks(), "shape": [m.nrows(), m.ncols()],
            "Y": Value::Array(m.iter().map(|&x| bits(x)).collect()) })
}
fn single_report<F: Float, T: AsSingleTargets<Elem = F>>(t: &T) -> Value {
    match t.try_single_target() {
        Ok(v) => json!({ "ok": Value::Array(v.iter().map(|&x| bits(x)).collect()) }),
        Err(e) => json!({ "err": format!("{:?}", e) }),
    }
}
fn dense_back<F: Float, S: Data<Elem = F>>(x: &ArrayBase<S, Ix2>) -> Value {
    Value::Array(x.iter().map(|&v| bits(v)).collect())
}
fn op_dataset<F: Float + 'static>(v: &Value) -> Value {
    let d = data::<F>(v);
    let t2 = {
        let y = d.y.clone();
        let ds = DatasetBase::from((d.x.clone(), y));
        let mut r = targets_report(ds.targets());
        r["ref"] = targets_report(&&d.y);
        r["view"] = targets_report(&d.y.view());
        r["f"] = targets_report(&fort(&d.y));
        r["mine"] = single_report(&Mine(d.y.clone()));
        r
    };
    let t1 = {
        let y = col2(&d.y);
        let mut r = targets_report(&y);
        r["view"] = targets_report(&d.y.slice(s![.., 0]));
        r["ref"] = targets_report(&&y);
        r["single"] = single_report(&y);
        r["single_view"] = single_report(&d.y.slice(s![.., 0]));
        r
    };
    // targets seen through views of other arrays
    let mut seen1 = vec![];
    let mut seen2 = vec![];
    for fmt in ["view", "strided", "rev", "revrows", "window"] {
        let e = Data_ { x: d.x.clone(), y: d.y.clone(), csc: None, fmt: fmt.to_string(), ymat: true };
        on_target1!(e, y => {
            let mut r = targets_report(&y);
            r["single"] = single_report(&y);
            let ds = DatasetBase::new(d.x.clone(), y);
            r["ds"] = targets_report(ds.targets());
            seen1.push(r);
        });
        on_target2!(e, y => {
            let mut r = targets_report(&y);
            let ds = DatasetBase::new(d.x.clone(), y);
            r["ds"] = targets_report(ds.targets());
            seen2.push(r);
        });
    }
    let design = on_design!(&d, x => {
        let rf = (&x).n_features();
        let kind = format!("{:?}", x.matrix_type());
        let rkind = format!("{:?}", (&x).matrix_type());
        let p = x.n_features();
        let ds = DatasetBase::new(x.clone(), col2(&d.y));
        let same = ds.design_matrix() == &x && ds.targets() == &col2(&d.y) && ds.design_matrix == x;
        json!({ "p": p, "rp": rf, "kind": kind, "rkind": rkind, "same": same })
    });
    let back = match d.fmt.as_str() {
        "f" => dense_back(&fort(&d.x)),
        _ => dense_back(&d.x),
    };
    json!({ "t1": t1, "t2": t2, "design": design, "back": back, "seen1": seen1, "seen2": seen2 })
}
/// Products of the model fit: a sequence of rank-one updates, then an extrapolated fit.
fn op_fit<F: Float + 'static>(v: &Value) -> Value {
    let d = data::<F>(v);
    let (n, p, t) = (us(v, "n"), us(v, "p"), us(v, "T"));
    let ws = uvec(&v["ws"]);
    let wacc = mat::<F>(&v["wacc"], p, t);
    let ups = v["ups"].as_array().unwrap();
    let byref = v["byref"].as_bool().unwrap_or(false);
    on_design!(&d, x => {
        let run = |x: &dyn Fn(&mut Array2<F>, &mut Array1<F>) -> (Array2<F>, Array1<F>)| {
            let mut a = mat::<F>(&v["fit0"], n, t);
            let mut b = a.slice(s![.., 0]).to_owned();
            let (ea, eb) = x(&mut a, &mut b);
            json!({ "XW": out2(&a), "Xw": out1(&b), "eXW": out2(&ea), "eXw": out1(&eb),
                    "shape": [ea.dim().0, ea.dim().1] })
        };
        if byref {
            let r = &x;
            run(&|a, b| {
                for u in ups {
                    let j = u[0].as_u64().unwrap() as usize;
                    let df = vec1::<F>(&u[1]);
                    DesignMatrix::update_model_fit_multi_task(&r, a, df.view(), j);
                    DesignMatrix::update_model_fit(&r, b, df[0], j);
                }
                (DesignMatrix::compute_extrapolated_fit_multi_task(&r, ws.view(), &wacc, n, t),
                 DesignMatrix::compute_extrapolated_fit(&r, ws.view(), &col2(&wacc), n))
            })
        } else {
            run(&|a, b| {
                for u in ups {
                    let j = u[0].as_u64().unwrap() as usize;
                    let df = vec1::<F>(&u[1]);
                    x.update_model_fit_multi_task(a, df.view(), j);
                    x.update_model_fit(b, df[0], j);
                }
                (x.compute_extrapolated_fit_multi_task(ws.view(), &wacc, n, t),
                 x.compute_extrapolated_fit(ws.view(), &col2(&wacc), n))
            })
        }
    })
}

fn run<F: Float + 'static>(v: &Value) -> Value {
    match st(v, "op") {
        "solve" => op_solve::<F>(v),
        "session" => op_session::<F>(v),
        "pen" => op_pen::<F>(v),
        "df" => op_df::<F>(v),
        "prim" => op_prim::<F>(v),
        "params" => op_params::<F>(v),
        "solver" => op_solver::<F>(v),
        "dataset" => op_dataset::<F>(v),
        "fit" => op_fit::<F>(v),
        x => panic!("op {x}"),
    }
}
fn dispatch(v: &Value) -> Value {
    if v["f32"].as_bool().unwrap_or(false) {
        run::<f32>(v)
    } else {
        run::<f64>(v)
    }
}
fn main() {
    serve(dispatch);
}
