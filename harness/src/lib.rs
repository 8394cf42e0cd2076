//! Executes scenario sessions (JSON lines) against the real interpn crate and records, for every
//! call, its result, output buffer and heap allocations. It decides nothing: the recorded traces
//! are checked by TLC against the specification in /verif/spec.
pub mod rat;
use num_traits::Float;
use rat::Q;
use serde_json::{Map, Value, json};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{BufRead, Write};
use std::panic::AssertUnwindSafe;
thread_local! { static GUARD: Cell<bool> = const { Cell::new(false) }; }
/// A panic of the code under test is data.
fn catch_unwind<X>(f: AssertUnwindSafe<impl FnOnce() -> X>) -> std::thread::Result<X> {
    GUARD.with(|g| g.set(true));
    let r = std::panic::catch_unwind(f);
    GUARD.with(|g| g.set(false));
    r
}

// ---------------------------------------------------------------- allocation counter
pub struct Counting;
thread_local! { static ALLOCS: Cell<u64> = const { Cell::new(0) }; }
fn bump() {
    let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump();
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump();
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Counting = Counting;
fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}

// ---------------------------------------------------------------- numbers
pub trait Num: Float + Send + Sync + std::fmt::Debug + 'static {
    fn of_q(q: Q) -> Self;
    fn show(self) -> Value;
}
fn show_f64(x: f64) -> Value {
    if x.is_nan() {
        return json!("nan");
    }
    if x.is_infinite() {
        return json!(if x > 0.0 { "inf" } else { "-inf" });
    }
    let (m, e, s) = Float::integer_decode(x);
    if m == 0 {
        return json!(0);
    }
    let (mut m, mut e) = (m as i64, e as i64);
    let tz = m.trailing_zeros() as i64;
    m >>= tz;
    e += tz;
    m *= s as i64;
    if e >= 0 && e < 31 && (m as i128) << e < (1 << 31) && (m as i128) << e > -(1 << 31) {
        return json!(m << e);
    }
    json!(format!("{m}@{e}"))
}
fn q_f64(q: Q) -> f64 {
    if q.d == 0 {
        return match q.n {
            0 => f64::NAN,
            1 => f64::INFINITY,
            _ => f64::NEG_INFINITY,
        };
    }
    q.n as f64 / q.d as f64
}
impl Num for Q {
    fn of_q(q: Q) -> Q {
        q
    }
    fn show(self) -> Value {
        if self.d == 1 && self.n.unsigned_abs() < (1 << 31) {
            json!(self.n as i64)
        } else {
            json!(self.to_string())
        }
    }
}
impl Num for f64 {
    fn of_q(q: Q) -> f64 {
        q_f64(q)
    }
    fn show(self) -> Value {
        show_f64(self)
    }
}
impl Num for f32 {
    fn of_q(q: Q) -> f32 {
        q_f64(q) as f32
    }
    fn show(self) -> Value {
        show_f64(self as f64)
    }
}
/// "n", "n/d", "m@e" (= m * 2^e), "nan", "inf", "-inf", or a JSON integer.
/// Values outside the 128-bit range (only used with f64/f32) are given as "m@e".
pub fn num<T: Num>(v: &Value) -> T {
    if let Some(i) = v.as_i64() {
        return T::of_q(Q::int(i as i128));
    }
    let s = v.as_str().unwrap_or_else(|| panic!("bad number {v}"));
    match s {
        "nan" => return T::nan(),
        "inf" => return T::infinity(),
        "-inf" => return T::neg_infinity(),
        "-0" => return T::neg_zero(),
        "max" => return T::max_value(),
        "min" => return T::min_value(),
        "tiny" => return T::min_positive_value(),
        _ => {}
    }
    if let Some((m, e)) = s.split_once('@') {
        let (m, e): (i128, i32) = (m.parse().unwrap(), e.parse().unwrap());
        let mut q = T::of_q(Q::int(m));
        let two = T::one() + T::one();
        for _ in 0..e.unsigned_abs() {
            q = if e > 0 { q * two } else { q / two };
        }
        return q;
    }
    if let Some((n, d)) = s.split_once('/') {
        return T::of_q(Q::new(n.parse().unwrap(), d.parse().unwrap()));
    }
    T::of_q(Q::int(s.parse().unwrap()))
}
fn nums<T: Num>(v: &Value) -> Vec<T> {
    v.as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default()
}
fn shows<T: Num>(v: &[T]) -> Value {
    Value::Array(v.iter().map(|x| x.show()).collect())
}
fn us(v: &Value) -> usize {
    if let Some(n) = v.as_u64() {
        return n as usize;
    }
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or_else(|| panic!("bad count {v}"))
}
fn uss(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(us).collect()).unwrap_or_default()
}

// ---------------------------------------------------------------- closed-form grids and values
fn grid<T: Num>(v: &Value) -> Vec<T> {
    if v["k"] == "list" {
        return nums(&v["v"]);
    }
    let n = us(&v["n"]);
    let s: T = num(&v["s"]);
    match v["k"].as_str().unwrap() {
        "aff" => {
            let h: T = num(&v["h"]);
            (0..n).map(|i| s + h * T::from(i).unwrap()).collect()
        }
        "alt" => {
            let (h1, h2): (T, T) = (num(&v["h1"]), num(&v["h2"]));
            (0..n)
                .map(|i| s + (h1 + h2) * T::from(i / 2).unwrap() + if i % 2 == 1 { h1 } else { T::zero() })
                .collect()
        }
        k => panic!("grid kind {k}"),
    }
}
fn unflat(mut k: usize, dims: &[usize]) -> Vec<usize> {
    let mut r = vec![0; dims.len()];
    for d in (0..dims.len()).rev() {
        r[d] = k % dims[d];
        k /= dims[d];
    }
    r
}
fn vals<T: Num>(v: &Value) -> Vec<T> {
    if v["k"] == "list" {
        return nums(&v["v"]);
    }
    match v["k"].as_str().unwrap() {
        "lcg" => {
            let n = us(&v["n"]);
            let [a, b, c, p, off] = ["a", "b", "c", "p", "off"].map(|k| v[k].as_i64().unwrap());
            (0..n)
                .map(|i| {
                    let i = i as i64 % p;
                    let w = (((a * i) % p * i) % p + (b * i) % p + c) % p - off;
                    T::of_q(Q::int(w as i128))
                })
                .collect()
        }
        "sep" => {
            let dims = uss(&v["dims"]);
            let terms: Vec<Vec<Vec<T>>> = v["terms"]
                .as_array()
                .unwrap()
                .iter()
                .map(|t| t.as_array().unwrap().iter().map(nums).collect())
                .collect();
            let n: usize = dims.iter().product();
            (0..n)
                .map(|k| {
                    let ix = unflat(k, &dims);
                    terms.iter().fold(T::zero(), |acc, t| {
                        acc + ix.iter().enumerate().fold(T::one(), |a, (d, &i)| a * t[d][i])
                    })
                })
                .collect()
        }
        "box" => {
            let dims = uss(&v["dims"]);
            let (lo, hi) = (uss(&v["lo"]), uss(&v["hi"]));
            let out: T = num(&v["out"]);
            let mut base: Vec<T> = vals(&v["base"]);
            for k in 0..base.len() {
                let ix = unflat(k, &dims);
                if ix.iter().enumerate().any(|(d, &i)| i < lo[d] || i > hi[d]) {
                    base[k] = out;
                }
            }
            base
        }
        k => panic!("vals kind {k}"),
    }
}

// ---------------------------------------------------------------- problems
struct Prob<T: 'static> {
    m: String,
    g: String,
    dims: &'static [usize],
    starts: &'static [T],
    steps: &'static [T],
    grids: &'static [&'static [T]],
    vals: &'static [T],
    lin: bool,
}
fn leak<X>(v: Vec<X>) -> &'static [X] {
    Box::leak(v.into_boxed_slice())
}
/// Build the problem and echo, in `v`, the numbers as they are represented in T.
fn prob<T: Num>(v: &mut Value) -> Prob<T> {
    let dims = uss(&v["dims"]);
    let (starts, steps): (Vec<T>, Vec<T>) = (nums(&v["starts"]), nums(&v["steps"]));
    let grids: Vec<Vec<T>> =
        v["grids"].as_array().map(|a| a.iter().map(grid).collect()).unwrap_or_default();
    let vs: Vec<T> = vals(&v["vals"]);
    let lin = v["lin"].as_bool().unwrap_or(false);
    let o = v.as_object_mut().unwrap();
    for (k, x) in [("starts", &starts), ("steps", &steps)] {
        if o.contains_key(k) {
            o.insert(k.into(), shows(x));
        }
    }
    if let Some(gs) = o.get_mut("grids").and_then(|g| g.as_array_mut()) {
        for (i, g) in gs.iter_mut().enumerate() {
            if g["k"] == "list" {
                g["v"] = shows(&grids[i]);
            }
        }
    }
    if o["vals"]["k"] == "list" {
        o["vals"]["v"] = shows(&vs);
    }
    Prob {
        m: v["m"].as_str().unwrap().into(),
        g: v["g"].as_str().unwrap().into(),
        dims: leak(dims),
        starts: leak(starts),
        steps: leak(steps),
        grids: leak(grids.into_iter().map(leak).collect()),
        vals: leak(vs),
        lin,
    }
}

/// Memory in which one problem after another is put at the same address.
struct Arena<T: 'static> {
    on: bool,
    t: Vec<Vec<T>>,
    g: Vec<&'static [T]>,
    u: Vec<usize>,
}
const ARENA: usize = 1 << 13;
impl<T: Num> Arena<T> {
    fn new(on: bool) -> Self {
        let t = (0..if on { 32 } else { 0 }).map(|i| Vec::with_capacity(if i == 2 { 16 * ARENA } else { ARENA })).collect();
        Arena { on, t, g: Vec::with_capacity(16), u: Vec::with_capacity(64) }
    }
    /// The caller drops whatever still refers to the memory's previous contents.
    fn put(&mut self, slot: usize, v: &[T]) -> &'static [T] {
        assert!(v.len() <= self.t[slot].capacity());
        self.t[slot].clear();
        self.t[slot].extend_from_slice(v);
        unsafe { std::slice::from_raw_parts(self.t[slot].as_ptr(), v.len()) }
    }
    fn prob(&mut self, p: &Prob<T>) -> Prob<T> {
        self.u.clear();
        self.u.extend_from_slice(p.dims);
        self.g.clear();
        for (i, g) in p.grids.iter().enumerate() {
            let s = self.put(3 + i, g);
            self.g.push(s);
        }
        assert!(p.grids.len() <= 10 && p.dims.len() <= 60);
        Prob {
            m: p.m.clone(),
            g: p.g.clone(),
            dims: unsafe { std::slice::from_raw_parts(self.u.as_ptr(), p.dims.len()) },
            starts: self.put(0, p.starts),
            steps: self.put(1, p.steps),
            grids: unsafe { std::slice::from_raw_parts(self.g.as_ptr(), p.grids.len()) },
            vals: self.put(2, p.vals),
            lin: p.lin,
        }
    }
}

// ---------------------------------------------------------------- objects
type R<X> = Result<X, &'static str>;
#[cfg(not(feature = "nosync"))]
trait Shared: Sync {}
#[cfg(not(feature = "nosync"))]
impl<X: Sync> Shared for X {}
#[cfg(feature = "nosync")]
trait Shared {}
#[cfg(feature = "nosync")]
impl<X> Shared for X {}
trait Obj<T>: Shared {
    fn batch(&self, x: &[&[T]], out: &mut [T]) -> Option<R<()>>;
    fn one(&self, x: &[T]) -> Option<R<T>>;
}
macro_rules! flat_obj { ($($s:ident),*) => { $(
    impl<T: Num, const N: usize> Obj<T> for $s<'static, T, N> {
        fn batch(&self, x: &[&[T]], out: &mut [T]) -> Option<R<()>> { Some(self.interp(x.try_into().ok()?, out)) }
        fn one(&self, x: &[T]) -> Option<R<T>> { Some(self.interp_one(x.try_into().ok()?)) }
    } )* } }
macro_rules! rec_obj { ($($s:ident),*) => { $(
    impl<T: Num, const N: usize> Obj<T> for $s<'static, T, N> {
        fn batch(&self, x: &[&[T]], out: &mut [T]) -> Option<R<()>> { Some(self.interp(x, out)) }
        fn one(&self, x: &[T]) -> Option<R<T>> { Some(self.interp_one(x)) }
    } )* } }
use interpn::multicubic::*;
use interpn::multilinear::*;
use interpn::nearest::*;
flat_obj!(MultilinearRegular, MultilinearRectilinear, MulticubicRegular, MulticubicRectilinear, NearestRegular, NearestRectilinear);
rec_obj!(MultilinearRegularRecursive, MultilinearRectilinearRecursive, MulticubicRegularRecursive, MulticubicRectilinearRecursive);

/// Measured construction: `None` = not expressible with this type, otherwise result and allocations.
struct Made<T: 'static>(R<Box<dyn Obj<T>>>, u64);
fn made<T: 'static, O: Obj<T> + 'static>(f: impl FnOnce() -> R<O>) -> Option<Made<T>> {
    let a0 = allocs();
    let r = f();
    let a1 = allocs();
    Some(Made(r.map(|o| Box::new(o) as Box<dyn Obj<T>>), a1 - a0))
}
macro_rules! by_n { ($n:expr, [$($k:literal),*], $f:ident, $a:expr) => { match $n { $($k => $f::<T, $k>($a),)* _ => None } } }
fn mk_lr<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    let (d, s, h) = (p.dims.try_into().ok()?, p.starts.try_into().ok()?, p.steps.try_into().ok()?);
    made(|| MultilinearRegular::<T, N>::new(d, s, h, p.vals))
}
fn mk_lx<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    let g: &'static [&'static [T]; N] = p.grids.try_into().ok()?;
    made(|| MultilinearRectilinear::<T, N>::new(g, p.vals))
}
fn mk_nr<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    let (d, s, h) = (p.dims.try_into().ok()?, p.starts.try_into().ok()?, p.steps.try_into().ok()?);
    made(|| NearestRegular::<T, N>::new(d, s, h, p.vals))
}
fn mk_nx<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    let g: &'static [&'static [T]; N] = p.grids.try_into().ok()?;
    made(|| NearestRectilinear::<T, N>::new(g, p.vals))
}
fn mk_cr<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    let (d, s, h) = (p.dims.try_into().ok()?, p.starts.try_into().ok()?, p.steps.try_into().ok()?);
    made(|| MulticubicRegular::<T, N>::new(d, s, h, p.vals, p.lin))
}
fn mk_cx<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    let g: &'static [&'static [T]; N] = p.grids.try_into().ok()?;
    made(|| MulticubicRectilinear::<T, N>::new(g, p.vals, p.lin))
}
fn mk_lrr<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    made(|| MultilinearRegularRecursive::<T, N>::new(p.dims, p.starts, p.steps, p.vals))
}
fn mk_lxr<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    made(|| MultilinearRectilinearRecursive::<T, N>::new(p.grids, p.vals))
}
fn mk_crr<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    made(|| MulticubicRegularRecursive::<T, N>::new(p.dims, p.starts, p.steps, p.vals, p.lin))
}
fn mk_cxr<T: Num, const N: usize>(p: &Prob<T>) -> Option<Made<T>> {
    made(|| MulticubicRectilinearRecursive::<T, N>::new(p.grids, p.vals, p.lin))
}
fn mk<T: Num>(p: &Prob<T>, a: &str, md: usize) -> Option<Made<T>> {
    match (p.m.as_str(), p.g.as_str(), a) {
        ("linear", "regular", "flat") => by_n!(md, [1, 2, 3, 4, 5, 6], mk_lr, p),
        ("linear", "rectilinear", "flat") => by_n!(md, [1, 2, 3, 4, 5, 6], mk_lx, p),
        ("nearest", "regular", "flat") => by_n!(md, [1, 2, 3, 4, 5, 6], mk_nr, p),
        ("nearest", "rectilinear", "flat") => by_n!(md, [1, 2, 3, 4, 5, 6], mk_nx, p),
        ("cubic", "regular", "flat") => by_n!(md, [1, 2, 3, 4], mk_cr, p),
        ("cubic", "rectilinear", "flat") => by_n!(md, [1, 2, 3, 4], mk_cx, p),
        ("linear", "regular", "rec") => by_n!(md, [1, 2, 3, 4, 5, 6, 7, 8, 11], mk_lrr, p),
        ("linear", "rectilinear", "rec") => by_n!(md, [1, 2, 3, 4, 5, 6, 7, 8, 11], mk_lxr, p),
        ("cubic", "regular", "rec") => by_n!(md, [1, 2, 3, 4, 5, 6, 7, 8, 11], mk_crr, p),
        ("cubic", "rectilinear", "rec") => by_n!(md, [1, 2, 3, 4, 5, 6, 7, 8, 11], mk_cxr, p),
        _ => None,
    }
}
fn call_fn<T: Num>(p: &Prob<T>, a: &str, obs: &[&[T]], out: &mut [T]) -> Option<R<()>> {
    use interpn::{multicubic as c, multilinear as l, nearest as n};
    Some(match (p.m.as_str(), p.g.as_str(), a) {
        ("linear", "regular", "flat") => l::regular::interpn(p.dims, p.starts, p.steps, p.vals, obs, out),
        ("linear", "rectilinear", "flat") => l::rectilinear::interpn(p.grids, p.vals, obs, out),
        ("linear", "regular", "rec") => l::regular_recursive::interpn(p.dims, p.starts, p.steps, p.vals, obs, out),
        ("linear", "rectilinear", "rec") => l::rectilinear_recursive::interpn(p.grids, p.vals, obs, out),
        ("cubic", "regular", "flat") => c::regular::interpn(p.dims, p.starts, p.steps, p.vals, p.lin, obs, out),
        ("cubic", "rectilinear", "flat") => c::rectilinear::interpn(p.grids, p.vals, p.lin, obs, out),
        ("cubic", "regular", "rec") => c::regular_recursive::interpn(p.dims, p.starts, p.steps, p.vals, p.lin, obs, out),
        ("cubic", "rectilinear", "rec") => c::rectilinear_recursive::interpn(p.grids, p.vals, p.lin, obs, out),
        ("nearest", "regular", "flat") => n::regular::interpn(p.dims, p.starts, p.steps, p.vals, obs, out),
        ("nearest", "rectilinear", "flat") => n::rectilinear::interpn(p.grids, p.vals, obs, out),
        _ => return None,
    })
}
fn call_alloc<T: Num>(p: &Prob<T>, a: &str, obs: &[&[T]]) -> Option<R<Vec<T>>> {
    use interpn::{multicubic as c, multilinear as l, nearest as n};
    Some(match (p.m.as_str(), p.g.as_str(), a) {
        ("linear", "regular", "flat") => l::regular::interpn_alloc(p.dims, p.starts, p.steps, p.vals, obs),
        ("linear", "rectilinear", "flat") => l::rectilinear::interpn_alloc(p.grids, p.vals, obs),
        ("linear", "regular", "rec") => l::regular_recursive::interpn_alloc(p.dims, p.starts, p.steps, p.vals, obs),
        ("linear", "rectilinear", "rec") => l::rectilinear_recursive::interpn_alloc(p.grids, p.vals, obs),
        ("cubic", "regular", "flat") => c::regular::interpn_alloc(p.dims, p.starts, p.steps, p.vals, p.lin, obs),
        ("cubic", "rectilinear", "flat") => c::rectilinear::interpn_alloc(p.grids, p.vals, p.lin, obs),
        ("cubic", "regular", "rec") => c::regular_recursive::interpn_alloc(p.dims, p.starts, p.steps, p.vals, p.lin, obs),
        ("cubic", "rectilinear", "rec") => c::rectilinear_recursive::interpn_alloc(p.grids, p.vals, p.lin, obs),
        ("nearest", "regular", "flat") => n::regular::interpn_alloc(p.dims, p.starts, p.steps, p.vals, obs),
        ("nearest", "rectilinear", "flat") => n::rectilinear::interpn_alloc(p.grids, p.vals, obs),
        _ => return None,
    })
}
fn call_cb<T: Num>(p: &Prob<T>, a: &str, obs: &[&[T]], atol: T, out: &mut [bool]) -> Option<R<()>> {
    use interpn::{multicubic as c, multilinear as l, nearest as n};
    Some(match (p.m.as_str(), p.g.as_str(), a) {
        ("linear", "regular", "flat") => l::regular::check_bounds(p.dims, p.starts, p.steps, obs, atol, out),
        ("linear", "rectilinear", "flat") => l::rectilinear::check_bounds(p.grids, obs, atol, out),
        ("linear", "regular", "rec") => l::regular_recursive::check_bounds(p.dims, p.starts, p.steps, obs, atol, out),
        ("linear", "rectilinear", "rec") => l::rectilinear_recursive::check_bounds(p.grids, obs, atol, out),
        ("cubic", "regular", "flat") => c::regular::check_bounds(p.dims, p.starts, p.steps, obs, atol, out),
        ("cubic", "rectilinear", "flat") => c::rectilinear::check_bounds(p.grids, obs, atol, out),
        ("cubic", "regular", "rec") => c::regular_recursive::check_bounds(p.dims, p.starts, p.steps, obs, atol, out),
        ("cubic", "rectilinear", "rec") => c::rectilinear_recursive::check_bounds(p.grids, obs, atol, out),
        ("nearest", "regular", "flat") => n::regular::check_bounds(p.dims, p.starts, p.steps, obs, atol, out),
        ("nearest", "rectilinear", "flat") => n::rectilinear::check_bounds(p.grids, obs, atol, out),
        _ => return None,
    })
}

// ---------------------------------------------------------------- one-dimensional interpolators
use interpn::one_dim::{Extrap, Grid1D, Interp1D, RectilinearGrid1D, RegularGrid1D};
use interpn::{Left1D, Linear1D, LinearHoldLast1D, Nearest1D, Right1D};
#[derive(Clone, Copy)]
enum G1<T: Num> {
    Reg(RegularGrid1D<'static, T>),
    Rect(RectilinearGrid1D<'static, T>),
}
fn i1_with<T: Num, G: Grid1D<'static, T>, I: Interp1D<'static, T, G>>(i: I, f: &str, xs: &[T], out: &mut Vec<T>) -> R<()> {
    match f {
        "eval" => i.eval(xs, out),
        "alc" => {
            *out = i.eval_alloc(xs)?;
            Ok(())
        }
        _ => {
            for (o, &x) in out.iter_mut().zip(xs) {
                *o = i.eval_one(x)?;
            }
            Ok(())
        }
    }
}
fn i1_kind<T: Num, G: Grid1D<'static, T>>(g: G, k: &str, f: &str, xs: &[T], out: &mut Vec<T>) -> R<()> {
    match k {
        "left" => i1_with(Left1D::new(g), f, xs, out),
        "right" => i1_with(Right1D::new(g), f, xs, out),
        "nearest" => i1_with(Nearest1D::new(g), f, xs, out),
        "linear" => i1_with(Linear1D::new(g), f, xs, out),
        "hold" => i1_with(LinearHoldLast1D::new(g), f, xs, out),
        _ => panic!("1-D kind {k}"),
    }
}
fn ex(e: &Extrap) -> &'static str {
    match e {
        Extrap::Inside => "in",
        Extrap::OutsideLow => "low",
        Extrap::OutsideHigh => "high",
    }
}

// ---------------------------------------------------------------- sessions
enum H<T: Num> {
    None,
    Nd(Box<dyn Obj<T>>),
    G1(G1<T>),
}
fn res<X>(r: &std::thread::Result<Option<R<X>>>) -> &'static str {
    match r {
        Err(_) => "panic",
        Ok(None) => "na",
        Ok(Some(Err(_))) => "err",
        Ok(Some(Ok(_))) => "ok",
    }
}
fn obs_of<T: Num>(op: &mut Map<String, Value>) -> Vec<Vec<T>> {
    let o: Vec<Vec<T>> = op["obs"].as_array().unwrap().iter().map(nums).collect();
    op.insert("obs".into(), Value::Array(o.iter().map(|v| shows(v)).collect()));
    o
}
/// The slices handed to the library: in the arena, when there is one.
fn slices<'a, T: Num>(o: &'a [Vec<T>], arena: &mut Arena<T>) -> Vec<&'a [T]> {
    if arena.on && o.len() <= 12 && o.iter().all(|v| v.len() <= ARENA) {
        o.iter().enumerate().map(|(i, v)| arena.put(14 + i, v)).collect()
    } else {
        o.iter().map(|v| &v[..]).collect()
    }
}
/// The same object evaluated by several threads at once (one after another without `Sync`).
fn together<T: Num>(o: &dyn Obj<T>, ob: &[&[T]], n: usize, th: usize, p0: T) -> Vec<(String, Vec<T>, bool)> {
    let bar = std::sync::Barrier::new(if cfg!(feature = "nosync") { 1 } else { th });
    let work = || {
        let mut out = vec![p0; n];
        bar.wait();
        let mut r = "ok";
        for _ in 0..8 {
            r = res(&catch_unwind(AssertUnwindSafe(|| o.batch(ob, &mut out))));
        }
        (r.to_string(), out, rat::take_poison())
    };
    #[cfg(feature = "nosync")]
    return (0..th).map(|_| work()).collect();
    #[cfg(not(feature = "nosync"))]
    std::thread::scope(|s| {
        let js: Vec<_> = (0..th).map(|_| s.spawn(work)).collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    })
}
fn step<T: Num>(op: &mut Map<String, Value>, ps: &[Prob<T>], hs: &mut Vec<H<T>>, arena: &mut Arena<T>) {
    let kind = op["o"].as_str().unwrap().to_string();
    let a = op.get("a").and_then(|a| a.as_str()).unwrap_or("flat").to_string();
    let pi = op.get("p").map(|p| us(p) - 1);
    let h = op.get("h").map(us).unwrap_or(0);
    while hs.len() <= h {
        hs.push(H::None);
    }
    let placed;
    let mut prob = pi.and_then(|i| ps.get(i));
    if arena.on && matches!(&kind[..], "new" | "fn" | "alc" | "cb" | "g1") {
        hs.iter_mut().for_each(|h| *h = H::None);
        placed = arena.prob(prob.unwrap());
        prob = Some(&placed);
    }
    let set = |op: &mut Map<String, Value>, r: &str, al: u64| {
        op.insert("r".into(), json!(r));
        op.insert("al".into(), json!(al));
    };
    let pre = |op: &Map<String, Value>| -> T { op.get("pre").map(num).unwrap_or_else(T::zero) };
    match kind.as_str() {
        "new" => {
            let md = us(&op["md"]);
            let r = catch_unwind(AssertUnwindSafe(|| mk(prob.unwrap(), &a, md)));
            let (s, al) = match r {
                Err(_) => ("panic", 0),
                Ok(None) => ("na", 0),
                Ok(Some(Made(Err(_), al))) => ("err", al),
                Ok(Some(Made(Ok(o), al))) => {
                    hs[h] = H::Nd(o);
                    ("ok", al)
                }
            };
            set(op, s, al);
        }
        "one" => {
            let x: Vec<T> = nums(&op["x"]);
            op.insert("x".into(), shows(&x));
            let H::Nd(o) = &hs[h] else { return set(op, "na", 0) };
            let a0 = allocs();
            let r = catch_unwind(AssertUnwindSafe(|| o.one(&x)));
            let al = allocs() - a0;
            set(op, res(&r), al);
            if let Ok(Some(Ok(y))) = r {
                op.insert("y".into(), y.show());
            }
        }
        "bat" | "fn" => {
            let obs = obs_of::<T>(op);
            let ob: Vec<&[T]> = slices(&obs, arena);
            let mut out = vec![pre(op); us(&op["n"])];
            let (r, al);
            if kind == "bat" {
                let H::Nd(o) = &hs[h] else { return set(op, "na", 0) };
                let a0 = allocs();
                r = catch_unwind(AssertUnwindSafe(|| o.batch(&ob, &mut out)));
                al = allocs() - a0;
            } else {
                let a0 = allocs();
                r = catch_unwind(AssertUnwindSafe(|| call_fn(prob.unwrap(), &a, &ob, &mut out)));
                al = allocs() - a0;
            }
            set(op, res(&r), al);
            op.insert("out".into(), shows(&out));
        }
        "par" => {
            // the same shared interpolator evaluated by several threads at once
            let obs = obs_of::<T>(op);
            let ob: Vec<&[T]> = slices(&obs, arena);
            let (n, th, p0) = (us(&op["n"]), us(&op["th"]), pre(op));
            let H::Nd(o) = &hs[h] else { return set(op, "na", 0) };
            let o: &dyn Obj<T> = &**o;
            let outs = together(o, &ob, n, th, p0);
            let bad = outs.iter().map(|x| x.0.clone()).find(|r| r != "ok");
            set(op, if outs.iter().any(|x| x.2) { "skip" } else { bad.as_deref().unwrap_or("ok") }, 0);
            op.insert("outs".into(), Value::Array(outs.iter().map(|x| shows(&x.1)).collect()));
        }
        "alc" => {
            let obs = obs_of::<T>(op);
            let ob: Vec<&[T]> = slices(&obs, arena);
            let a0 = allocs();
            let r = catch_unwind(AssertUnwindSafe(|| call_alloc(prob.unwrap(), &a, &ob)));
            let al = allocs() - a0;
            set(op, res(&r), al);
            if let Ok(Some(Ok(v))) = r {
                op.insert("out".into(), shows(&v));
            }
        }
        "cb" => {
            let obs = obs_of::<T>(op);
            let ob: Vec<&[T]> = slices(&obs, arena);
            let atol: T = num(&op["atol"]);
            op.insert("atol".into(), atol.show());
            let mut out = vec![op.get("pre").and_then(|b| b.as_bool()).unwrap_or(false); us(&op["n"])];
            let a0 = allocs();
            let r = catch_unwind(AssertUnwindSafe(|| call_cb(prob.unwrap(), &a, &ob, atol, &mut out)));
            let al = allocs() - a0;
            set(op, res(&r), al);
            op.insert("out".into(), json!(out));
        }
        "g1" => {
            let p = prob.unwrap();
            let a0 = allocs();
            let r = catch_unwind(AssertUnwindSafe(|| {
                Some(if p.g == "regular" {
                    RegularGrid1D::new(p.starts[0], p.steps[0], p.vals).map(G1::Reg)
                } else {
                    RectilinearGrid1D::new(p.grids[0], p.vals).map(G1::Rect)
                })
            }));
            let al = allocs() - a0;
            set(op, res(&r), al);
            hs[h] = H::None;
            if let Ok(Some(Ok(g))) = r {
                hs[h] = H::G1(g);
            }
        }
        "i1" => {
            let xs: Vec<T> = nums(&op["xs"]);
            op.insert("xs".into(), shows(&xs));
            let xs: &[T] = slices(std::slice::from_ref(&xs), arena)[0];
            let (k, f) = (op["k"].as_str().unwrap().to_string(), op["f"].as_str().unwrap().to_string());
            let H::G1(g) = &hs[h] else { return set(op, "na", 0) };
            let g = *g;
            let mut out = vec![pre(op); us(&op["n"])];
            let a0 = allocs();
            let r = catch_unwind(AssertUnwindSafe(|| {
                Some(match g {
                    G1::Reg(g) => i1_kind(g, &k, &f, xs, &mut out),
                    G1::Rect(g) => i1_kind(g, &k, &f, xs, &mut out),
                })
            }));
            let al = allocs() - a0;
            set(op, res(&r), al);
            op.insert("out".into(), shows(&out));
        }
        "at" => {
            let x: T = num(&op["x"]);
            op.insert("x".into(), x.show());
            let H::G1(g) = &hs[h] else { return set(op, "na", 0) };
            let g = *g;
            let a0 = allocs();
            let r = catch_unwind(AssertUnwindSafe(|| {
                Some((|| {
                    let ((i, e), s) = match g {
                        G1::Reg(g) => (g.index(x)?, g.at(x)?),
                        G1::Rect(g) => (g.index(x)?, g.at(x)?),
                    };
                    Ok((i, ex(&e), s))
                })())
            }));
            let al = allocs() - a0;
            set(op, res(&r), al);
            if let Ok(Some(Ok((i, e, s)))) = r {
                op.insert("i".into(), json!(i));
                op.insert("e".into(), json!(e));
                op.insert("e2".into(), json!(ex(&s.extrap)));
                op.insert("s".into(), shows(&[s.x0, s.y0, s.x1, s.y1]));
            }
        }
        "linspace" => {
            let (x, y): (T, T) = (num(&op["x"]), num(&op["y"]));
            op.insert("x".into(), x.show());
            op.insert("y".into(), y.show());
            let n = us(&op["n"]);
            let r = catch_unwind(AssertUnwindSafe(|| Some(Ok(interpn::utils::linspace(x, y, n)))));
            set(op, res(&r), 0);
            if let Ok(Some(Ok(v))) = r {
                op.insert("out".into(), shows(&v));
            }
        }
        "mesh" => {
            let gs: Vec<Vec<T>> = op["grids"].as_array().unwrap().iter().map(nums).collect();
            op.insert("grids".into(), Value::Array(gs.iter().map(|v| shows(v)).collect()));
            let r = catch_unwind(AssertUnwindSafe(|| Some(Ok(interpn::utils::meshgrid(gs.iter().collect())))));
            set(op, res(&r), 0);
            if let Ok(Some(Ok(v))) = r {
                op.insert("out".into(), Value::Array(v.iter().map(|x| shows(x)).collect()));
            }
        }
        k => panic!("operation {k}"),
    }
}
pub fn main_for<T: Num>() {
    std::panic::set_hook(Box::new(|i| {
        if !GUARD.with(|g| g.get()) {
            eprintln!("harness: {i}");
        }
    }));
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let mut s: Value = serde_json::from_str(&line).unwrap();
        let ps: Vec<Prob<T>> = s["p"].as_array_mut().unwrap().iter_mut().map(prob).collect();
        let mut hs: Vec<H<T>> = vec![];
        let mut arena = Arena::new(s["arena"] == true);
        let outside = rat::take_poison(); // a problem itself left the exact range
        for op in s["ev"].as_array_mut().unwrap() {
            let op = op.as_object_mut().unwrap();
            step(op, &ps, &mut hs, &mut arena);
            if rat::take_poison() || outside {
                op.insert("r".into(), json!("skip"));
            }
        }
        serde_json::to_writer(&mut out, &s).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
