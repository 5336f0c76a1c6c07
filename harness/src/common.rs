//! JSON <-> arrays. Every float travels as the u64 bit pattern of an f64, exact both ways.
use ndarray::{s, Array1, Array2, ArrayView2, ShapeBuilder};
use serde_json::{json, Value};
use sparseglm::Float;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn fl<F: Float>(v: &Value) -> F {
    F::cast(f64::from_bits(v.as_u64().expect("bits")))
}
pub fn bits<F: Float>(x: F) -> Value {
    let x: f64 = num_to_f64(x);
    json!(x.to_bits())
}
pub fn num_to_f64<F: Float>(x: F) -> f64 {
    // exact for f32 and f64
    <f64 as ndarray_numcast::NumCastF64>::from_float(x)
}
pub mod ndarray_numcast {
    use sparseglm::Float;
    pub trait NumCastF64 {
        fn from_float<F: Float>(x: F) -> f64;
    }
    impl NumCastF64 for f64 {
        fn from_float<F: Float>(x: F) -> f64 {
            <f64 as Float>::cast(x)
        }
    }
}
pub fn us(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or_else(|| panic!("missing {k}")) as usize
}
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("missing {k}"))
}
pub fn vec1<F: Float>(v: &Value) -> Array1<F> {
    Array1::from_vec(v.as_array().unwrap().iter().map(fl).collect())
}
pub fn uvec(v: &Value) -> Array1<usize> {
    Array1::from_vec(v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect())
}
pub fn ivec(v: &Value) -> Array1<i32> {
    Array1::from_vec(v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect())
}
pub fn mat<F: Float>(v: &Value, r: usize, c: usize) -> Array2<F> {
    Array2::from_shape_vec((r, c), v.as_array().unwrap().iter().map(fl).collect()).unwrap()
}
/// The same logical matrix in column-major order.
pub fn fort<F: Float>(x: &Array2<F>) -> Array2<F> {
    let (r, c) = x.dim();
    let mut data = Vec::with_capacity(r * c);
    for j in 0..c {
        for i in 0..r {
            data.push(x[[i, j]]);
        }
    }
    Array2::from_shape_vec((r, c).f(), data).unwrap()
}
/// Where entry (i, j) of an r x c matrix lies in the larger array of the given storage.
fn place(fmt: &str, (r, c): (usize, usize), i: usize, j: usize) -> (usize, usize) {
    match fmt {
        // every other row, every other column from the last
        "strided" => (2 * i, 2 * (c - 1 - j)),
        "rev" => (r - 1 - i, c - 1 - j),
        "revrows" => (r - 1 - i, j),
        "window" => (i + 2, j + 1),
        _ => (i, j),
    }
}
/// The array holding `x`; what lies outside of `x` must never be read.
pub fn stored<F: Float>(x: &Array2<F>, fmt: &str) -> Array2<F> {
    let (r, c) = x.dim();
    let dim = match fmt {
        "strided" => (2 * r, 2 * c),
        "window" => (r + 3, c + 4),
        _ => (r, c),
    };
    let mut big = Array2::<F>::from_elem(dim, F::cast(1e30));
    for i in 0..r {
        for j in 0..c {
            big[place(fmt, (r, c), i, j)] = x[[i, j]];
        }
    }
    big
}
/// The view of `big` that shows the stored matrix again.
pub fn seen<'a, F: Float>(big: &'a Array2<F>, fmt: &str, (r, c): (usize, usize)) -> ArrayView2<'a, F> {
    match fmt {
        "strided" => big.slice(s![..;2, ..-1;-2]),
        "rev" => big.slice(s![..;-1, ..;-1]),
        "revrows" => big.slice(s![..;-1, ..]),
        "window" => big.slice(s![2..r + 2, 1..c + 1]),
        _ => big.view(),
    }
}
pub fn out1<F: Float>(x: &Array1<F>) -> Value {
    Value::Array(x.iter().map(|&v| bits(v)).collect())
}
pub fn out2<F: Float>(x: &Array2<F>) -> Value {
    Value::Array(x.iter().map(|&v| bits(v)).collect())
}
pub fn col2<F: Float>(x: &Array2<F>) -> Array1<F> {
    x.slice(s![.., 0]).to_owned()
}

pub fn serve(f: fn(&Value) -> Value) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let inp = BufReader::new(File::open(&args[1]).expect("script"));
    let mut out = BufWriter::new(File::create(&args[2]).expect("results"));
    for line in inp.lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("json");
        let mut r = match catch_unwind(AssertUnwindSafe(|| f(&v))) {
            Ok(r) => r,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({ "panic": m })
            }
        };
        r["id"] = v["id"].clone();
        writeln!(out, "{}", r).unwrap();
        // a run that never terminates must still show which operation hung
        out.flush().unwrap();
    }
}
