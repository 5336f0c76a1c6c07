//! The crate's public helpers for writing tests.
#![allow(non_snake_case)]
#[path = "../common.rs"]
mod common;
use common::*;
use ndarray::{ArrayView1, ArrayView2};
use serde_json::{json, Value};
use sparseglm::utils::test_helpers as th;
use sparseglm::Float;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Both storage orders, and every second entry of a larger array.
fn stored2<F: Float>(v: &Value, r: usize, c: usize, how: &str) -> ndarray::Array2<F> {
    let m = mat::<F>(v, r, c);
    match how {
        "f" => fort(&m),
        "step" => {
            let mut big = ndarray::Array2::<F>::zeros((2 * r, 2 * c));
            for i in 0..r {
                for j in 0..c {
                    big[[2 * i, 2 * j]] = m[[i, j]];
                }
            }
            big.slice_move(ndarray::s![..;2, ..;2])
        }
        _ => m,
    }
}
fn close<F: Float + approx_eps::Eps>(v: &Value) -> Value {
    let d: F = fl(&v["delta"]);
    let (ra, ca, rb, cb) = (us(v, "ra"), us(v, "ca"), us(v, "rb"), us(v, "cb"));
    let (a, b) = (stored2::<F>(&v["a"], ra, ca, st(v, "fa")), stored2::<F>(&v["b"], rb, cb, st(v, "fb")));
    let two = v["two"].as_bool().unwrap();
    let panicked = catch_unwind(AssertUnwindSafe(|| {
        if two {
            F::two(a.view(), b.view(), d)
        } else {
            F::one_(a.column(0), b.column(0), d)
        }
    }))
    .is_err();
    json!({ "panicked": panicked })
}
mod approx_eps {
    use super::*;
    pub trait Eps: Float {
        fn two(a: ArrayView2<Self>, b: ArrayView2<Self>, d: Self);
        fn one_(a: ArrayView1<Self>, b: ArrayView1<Self>, d: Self);
    }
    macro_rules! eps {
        ($t:ty) => {
            impl Eps for $t {
                fn two(a: ArrayView2<$t>, b: ArrayView2<$t>, d: $t) {
                    th::assert_array2d_all_close(a, b, d)
                }
                fn one_(a: ArrayView1<$t>, b: ArrayView1<$t>, d: $t) {
                    th::assert_array_all_close(a, b, d)
                }
            }
        };
    }
    eps!(f64);
    eps!(f32);
}
fn run(v: &Value) -> Value {
    match st(v, "op") {
        "close" if v["f32"].as_bool().unwrap() => close::<f32>(v),
        "close" => close::<f64>(v),
        "stream" => {
            let all: Vec<Value> = v["lens"].as_array().unwrap().iter()
                .map(|k| json!(th::fill_random_vector(k.as_u64().unwrap() as usize).iter().map(|x| bits(*x)).collect::<Vec<_>>()))
                .collect();
            json!({ "all": all })
        }
        "data" => {
            let (n, p, t) = (us(v, "n"), us(v, "p"), us(v, "T"));
            let s: Vec<Value> = th::fill_random_vector(us(v, "need")).iter().map(|x| bits(*x)).collect();
            if v["multi"].as_bool().unwrap() {
                let (x, y) = th::generate_random_data_mtl(n, p, t);
                json!({ "s": s, "x": out2(&x), "y": out2(&y), "xs": x.shape(), "ys": y.shape() })
            } else {
                let (x, y) = th::generate_random_data(n, p);
                json!({ "s": s, "x": out2(&x), "y": out1(&y), "xs": x.shape(), "ys": [y.len(), 1] })
            }
        }
        x => panic!("op {x}"),
    }
}
fn main() {
    serve(run);
}
