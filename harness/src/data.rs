//! Problems as the scripts describe them: hyperparameters, designs and targets in any storage.
use super::common::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use sparseglm::solvers::Solver;
use sparseglm::Float;

// ---------------------------------------------------------------- hyperparameters
pub struct Cfg<F> {
    pub ws: usize,
    pub it: usize,
    pub ep: usize,
    pub tol: F,
    pub k: usize,
    pub acc: bool,
    pub verb: bool,
}
pub fn cfg<F: Float>(v: &Value) -> Cfg<F> {
    Cfg {
        ws: us(v, "ws"),
        it: us(v, "it"),
        ep: us(v, "ep"),
        tol: fl(&v["tol"]),
        k: us(v, "K"),
        acc: v["acc"].as_bool().unwrap(),
        verb: v["verb"].as_bool().unwrap_or(false),
    }
}
pub fn solver<F: Float>(c: &Cfg<F>) -> Solver<F> {
    Solver::new()
        .ws_start_size(c.ws)
        .max_iterations(c.it)
        .max_epochs(c.ep)
        .tolerance(c.tol)
        .K(c.k)
        .use_acceleration(c.acc)
        .verbose(c.verb)
}
macro_rules! with_cfg {
    ($p:expr, $c:expr) => {
        $p.ws_start_size($c.ws)
            .max_iterations($c.it)
            .max_epochs($c.ep)
            .tolerance($c.tol)
            .K($c.k)
            .use_acceleration($c.acc)
            .verbose($c.verb)
    };
}
pub fn ok1<F: Float>(w: Array1<F>) -> Value {
    json!({ "w": out1(&w), "shape": [w.len(), 1] })
}
pub fn ok2<F: Float>(w: Array2<F>) -> Value {
    let (a, b) = w.dim();
    json!({ "w": out2(&w), "shape": [a, b] })
}
// ---------------------------------------------------------------- one problem, any storage
pub struct Data_<F: Float> {
    pub x: Array2<F>,
    pub y: Array2<F>,
    pub csc: Option<(Array1<F>, Array1<i32>, Array1<i32>)>,
    pub fmt: String,
    pub ymat: bool,
}
pub fn data<F: Float>(v: &Value) -> Data_<F> {
    let (n, p, t) = (us(v, "n"), us(v, "p"), us(v, "T"));
    let fmt = v["fmt"].as_str().unwrap_or("c").to_string();
    Data_ {
        x: if v["X"].is_null() { Array2::zeros((n, p)) } else { mat(&v["X"], n, p) },
        y: mat(&v["Y"], n, t),
        csc: if fmt == "csc" {
            Some((vec1(&v["data"]), ivec(&v["indices"]), ivec(&v["indptr"])))
        } else {
            None
        },
        fmt,
        ymat: v["ymat"].as_bool().unwrap_or(t > 1),
    }
}
impl<F: Float> Data_<F> {
    pub fn viewed(&self) -> bool {
        matches!(self.fmt.as_str(), "view" | "strided" | "rev" | "revrows" | "window")
    }
}
/// Calls `$body` with `$x` bound to the design in the requested storage.
macro_rules! on_design {
    ($d:expr, $x:ident => $body:expr) => {{
        let d = $d;
        match d.fmt.as_str() {
            "c" => {
                let $x = d.x.clone();
                let r = $body;
                r
            }
            "f" => {
                let $x = fort(&d.x);
                $body
            }
            "view" | "strided" | "rev" | "revrows" | "window" => {
                let big = stored(&d.x, &d.fmt);
                let $x = seen(&big, &d.fmt, d.x.dim());
                $body
            }
            "csc" => {
                let (a, b, c) = d.csc.as_ref().unwrap();
                let $x = CSCArray::new(a.view(), b.view(), c.view());
                $body
            }
            f => panic!("format {f}"),
        }
    }};
}
macro_rules! on_target1 {
    ($d:expr, $y:ident => $body:expr) => {
        if $d.viewed() {
            let big = stored(&$d.y, &$d.fmt);
            let all = seen(&big, &$d.fmt, $d.y.dim());
            let $y = all.slice(s![.., 0]);
            $body
        } else {
            let $y = col2(&$d.y);
            $body
        }
    };
}
macro_rules! on_target2 {
    ($d:expr, $y:ident => $body:expr) => {
        if $d.viewed() {
            let big = stored(&$d.y, &$d.fmt);
            let $y = seen(&big, &$d.fmt, $d.y.dim());
            $body
        } else if $d.fmt == "f" {
            let $y = fort(&$d.y);
            $body
        } else if !$d.ymat {
            let $y = col2(&$d.y);
            $body
        } else {
            let $y = $d.y.clone();
            $body
        }
    };
}
