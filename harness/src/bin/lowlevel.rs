//! The public functions of the solver modules: apart from the main binary, because they are the
//! likeliest part of the API to change shape.
#![allow(non_snake_case)]
#[path = "../common.rs"]
mod common;
use common::*;
use ndarray::{s, Array1};
use serde_json::{json, Value};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::DatasetBase;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, L21};
use sparseglm::penalties::separable::{L1PlusL2, L05, L1, MCP};
use sparseglm::solvers::{anderson_bcd as bcd, anderson_cd as cd};

type F = f64;
fn run(v: &Value) -> Value {
    match st(v, "op") {
        "ws" => {
            let mut kkt = vec1::<F>(&v["kkt"]);
            let p = kkt.len();
            let t = us(v, "T");
            let w = mat::<F>(&v["w"], p, t);
            let (ws, n): (Array1<usize>, usize) = if v["block"].as_bool().unwrap() {
                bcd::construct_ws_from_kkt(&mut kkt, w.view(), us(v, "start"))
            } else {
                cd::construct_ws_from_kkt(&mut kkt, w.slice(s![.., 0]), us(v, "start"))
            };
            json!({ "ws": ws.to_vec(), "n": n })
        }
        "kkt" => {
            let (n, p, t) = (us(v, "n"), us(v, "p"), us(v, "T"));
            let x = mat::<F>(&v["X"], n, p);
            let y = mat::<F>(&v["Y"], n, t);
            let w = mat::<F>(&v["w"], p, t);
            let xw = x.dot(&w);
            let ws = uvec(&v["ws"]);
            let a: F = fl(&v["pen"][1]);
            let g: F = fl(&v["pen"][2]);
            let csc = (vec1::<F>(&v["data"]), ivec(&v["indices"]), ivec(&v["indptr"]));
            let sp = CSCArray::new(csc.0.view(), csc.1.view(), csc.2.view());
            macro_rules! single {
                ($df:expr, $pen:expr) => {{
                    let w = w.slice(s![.., 0]);
                    let xw = xw.slice(s![.., 0]);
                    let mut df = $df;
                    if v["sparse"].as_bool().unwrap() {
                        let ds = DatasetBase::from((sp, col2(&y)));
                        df.initialize(&ds);
                        let gr = cd::construct_grad(&ds, xw, ws.view(), &df);
                        let (k, m) = cd::opt_cond_violation(&ds, w, xw, ws.view(), &df, &$pen);
                        json!({ "grad": out1(&gr), "kkt": out1(&k), "max": bits(m) })
                    } else {
                        let ds = DatasetBase::from((x, col2(&y)));
                        df.initialize(&ds);
                        let gr = cd::construct_grad(&ds, xw, ws.view(), &df);
                        let (k, m) = cd::opt_cond_violation(&ds, w, xw, ws.view(), &df, &$pen);
                        json!({ "grad": out1(&gr), "kkt": out1(&k), "max": bits(m) })
                    }
                }};
            }
            macro_rules! multi {
                ($pen:expr) => {{
                    let mut df = QuadraticMultiTask::<F>::new();
                    if v["sparse"].as_bool().unwrap() {
                        let ds = DatasetBase::from((sp, y));
                        df.initialize(&ds);
                        let gr = bcd::construct_grad(&ds, xw.view(), ws.view(), &df);
                        let (k, m) = bcd::opt_cond_violation(&ds, w.view(), xw.view(), ws.view(), &df, &$pen);
                        json!({ "grad": out2(&gr), "kkt": out1(&k), "max": bits(m) })
                    } else {
                        let ds = DatasetBase::from((x, y));
                        df.initialize(&ds);
                        let gr = bcd::construct_grad(&ds, xw.view(), ws.view(), &df);
                        let (k, m) = bcd::opt_cond_violation(&ds, w.view(), xw.view(), ws.view(), &df, &$pen);
                        json!({ "grad": out2(&gr), "kkt": out1(&k), "max": bits(m) })
                    }
                }};
            }
            let logit = st(v, "df") == "logit";
            match v["pen"][0].as_str().unwrap() {
                "l1" if logit => single!(Logistic::<F>::new(), L1::new(a)),
                "l1" => single!(Quadratic::<F>::new(), L1::new(a)),
                "en" => single!(Quadratic::<F>::new(), L1PlusL2::new(a, g)),
                "mcp" => single!(Quadratic::<F>::new(), MCP::new(a, g)),
                "l05" => single!(Quadratic::<F>::new(), L05::new(a)),
                "l21" => multi!(L21::new(a)),
                "ben" => multi!(BlockL1PlusL2::new(a, g)),
                "bmcp" => multi!(BlockMCP::new(a, g)),
                x => panic!("penalty {x}"),
            }
        }
        x => panic!("op {x}"),
    }
}
fn main() {
    serve(run);
}
