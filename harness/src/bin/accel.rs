//! Direct calls of the extrapolation routines of the two solvers.
#![allow(non_snake_case)]
#[path = "../common.rs"]
mod common;
use common::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::DatasetBase;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, L21};
use sparseglm::penalties::separable::{L1PlusL2, L05, L1, MCP};
use sparseglm::solvers::{anderson_bcd as bcd, anderson_cd as cd};

type F = f64;
fn run(v: &Value) -> Value {
    let (n, p, t, K) = (us(v, "n"), us(v, "p"), us(v, "T"), us(v, "K"));
    let x = mat::<F>(&v["X"], n, p);
    let y = mat::<F>(&v["Y"], n, t);
    let ws = uvec(&v["ws"]);
    let its: Vec<Array2<F>> = v["iterates"].as_array().unwrap().iter().map(|w| mat::<F>(w, p, t)).collect();
    let a: F = fl(&v["pen"][1]);
    let g: F = fl(&v["pen"][2]);
    let csc = (vec1::<F>(&v["data"]), ivec(&v["indices"]), ivec(&v["indptr"]));
    let sp = CSCArray::new(csc.0.view(), csc.1.view(), csc.2.view());
    let x2 = x.clone();
    macro_rules! single {
        ($df:expr, $pen:expr, $ds:expr) => {{
            let (ds, pen) = ($ds, $pen);
            let mut df = $df;
            df.initialize(&ds);
            let mut last = Array2::<F>::zeros((K + 1, ws.len()));
            let mut U = Array2::<F>::zeros((K, ws.len()));
            let mut out = vec![];
            for (e, w0) in its.iter().enumerate() {
                let mut w: Array1<F> = w0.column(0).to_owned();
                let mut xw = x2.dot(&w);
                let f0 = xw.clone();
                cd::anderson_accel(&ds, &df, &pen, &mut last, &mut U, &mut w, &mut xw, ws.view(), e, K, false);
                out.push(json!({ "w": out1(&w), "f": out1(&xw), "same": f0 == xw }));
            }
            json!({ "calls": out })
        }};
    }
    macro_rules! multi {
        ($pen:expr, $ds:expr) => {{
            let (ds, pen) = ($ds, $pen);
            let mut df = QuadraticMultiTask::<F>::new();
            df.initialize(&ds);
            let mut last = Array2::<F>::zeros((K + 1, ws.len() * t));
            let mut U = Array2::<F>::zeros((K, ws.len() * t));
            let mut out = vec![];
            for (e, w0) in its.iter().enumerate() {
                let mut w = w0.clone();
                let mut xw = x2.dot(&w);
                let f0 = xw.clone();
                bcd::anderson_accel(&ds, &mut w, &mut xw, &df, &pen, ws.view(), &mut last, &mut U, e, K, false);
                out.push(json!({ "w": out2(&w), "f": out2(&xw), "same": f0 == xw }));
            }
            json!({ "calls": out })
        }};
    }
    macro_rules! data {
        ($m:ident, $y:expr, $($a:expr),*) => {
            if v["sparse"].as_bool().unwrap() { $m!($($a),*, DatasetBase::from((sp, $y))) } else { $m!($($a),*, DatasetBase::from((x, $y))) }
        };
    }
    let logit = st(v, "df") == "logit";
    match v["pen"][0].as_str().unwrap() {
        "l1" if logit => data!(single, col2(&y), Logistic::<F>::new(), L1::new(a)),
        "en" if logit => data!(single, col2(&y), Logistic::<F>::new(), L1PlusL2::new(a, g)),
        "l1" => data!(single, col2(&y), Quadratic::<F>::new(), L1::new(a)),
        "en" => data!(single, col2(&y), Quadratic::<F>::new(), L1PlusL2::new(a, g)),
        "mcp" => data!(single, col2(&y), Quadratic::<F>::new(), MCP::new(a, g)),
        "l05" => data!(single, col2(&y), Quadratic::<F>::new(), L05::new(a)),
        "l21" => data!(multi, y, L21::new(a)),
        "ben" => data!(multi, y, BlockL1PlusL2::new(a, g)),
        "bmcp" => data!(multi, y, BlockMCP::new(a, g)),
        x => panic!("penalty {x}"),
    }
}
fn main() {
    serve(run);
}
