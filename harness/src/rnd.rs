//! Streams of random arrays: each call's shape, flags and a classification of its elements are recorded.
use crate::rng::Rng;
use crate::sys;
use crate::vm::{js, jsu, size};
use redstone_ml::*;
use std::collections::HashSet;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const TYPES: [&str; 14] = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f32", "f64"];

/// Where an element lies: below the range, above it, not a number / not an integer, or in a bucket.
#[derive(Clone, Copy)]
pub enum Cell { Low, High, Odd, In(usize) }

struct Call<T: 'static + Copy> { sh: Vec<usize>, els: Vec<T>, c: bool, vw: bool, lf: bool }
fn arr<T: RawDataType>(a: NdArray<'static, T>, lf: bool) -> Call<T> { Call { sh: a.shape().to_vec(), els: a.flatiter().take(300_000).collect(), c: a.is_contiguous(), vw: a.is_view(), lf } }
fn ten<T: TensorDataType>(t: Tensor<'static, T>) -> Call<T> { let lf = t.is_leaf() && !t.requires_grad(); let a = t.detach(); Call { sh: t.shape().to_vec(), els: a.flatiter().take(300_000).collect(), c: t.is_contiguous(), vw: t.is_view(), lf } }

/// the calls of one stream, recorded one event per call
fn stream<T: 'static + Copy>(r: &mut Rng, total: usize, fixed: &[Vec<usize>], nb: usize, refuse: bool, fine: bool, key: impl Fn(T) -> u128, cell: impl Fn(T) -> Cell, call: impl Fn(Vec<usize>) -> Call<T>) {
    let mut seen: HashSet<u128> = HashSet::new();
    let mut prev: Vec<Vec<u128>> = vec![];
    let mut left = total as i64;
    let mut last: Option<usize> = None;
    let mut events = 0;
    while if fixed.is_empty() { left > 0 && events < 40 } else { events < fixed.len() } {
        events += 1;
        let sh: Vec<usize> = if !fixed.is_empty() { fixed[events - 1].clone() } else { match r.below(8) {
            0 => vec![], 1 => vec![1 + r.below(4)], 2 => vec![1 + r.below(5), 1 + r.below(5)], 3 => vec![1 + r.below(3), 2, 1 + r.below(4), 3],
            4 => vec![70 + r.below(50)], 5 => vec![8 + r.below(3), 1, 9 + r.below(4)], _ => vec![100 + r.below(200), 60 + r.below(60)] } };
        left -= if refuse { total as i64 / 3 } else { size(&sh) as i64 };
        let _ = write!(sys::buf(), "{{\"op\":\"rand\",\"n\":{},", jsu(&sh));
        match catch_unwind(AssertUnwindSafe(|| call(sh.clone()))) {
            Err(_) => { let _ = write!(sys::buf(), "\"out\":\"panic\"}}\n"); }
            Ok(x) => {
                let (mut lo, mut hi, mut odd, mut dup, mut pairs, mut npairs) = (0i64, 0i64, 0i64, 0i64, 0i64, 0i64);
                let mut h = vec![0i64; nb];
                let keys: Vec<u128> = x.els.iter().map(|&e| key(e)).collect();
                for (&e, &k) in x.els.iter().zip(&keys) {
                    let mut b = None;
                    match cell(e) { Cell::Low => lo += 1, Cell::High => hi += 1, Cell::Odd => odd += 1, Cell::In(i) => { h[i] += 1; b = Some(i); } }
                    if let (Some(p), Some(i)) = (last, b) { npairs += 1; if p == i { pairs += 1; } }
                    last = b;
                    if fine && !seen.insert(k) { dup += 1; }
                }
                let same = keys.len() >= 64 && nb > 1 && prev.iter().any(|p| *p == keys);
                if keys.len() >= 64 && prev.len() < 6 { prev.push(keys); }
                let _ = write!(sys::buf(), "\"out\":\"ok\",\"sh\":{},\"cnt\":{},\"c\":{},\"vw\":{},\"lf\":{},\"lo\":{},\"hi\":{},\"odd\":{},\"dup\":{},\"pr\":{},\"np\":{},\"same\":{},\"h\":{}}}\n",
                    jsu(&x.sh), x.els.len(), x.c, x.vw, x.lf, lo, hi, odd, dup, pairs, npairs, same, js(&h));
            }
        }
    }
    let _ = write!(sys::buf(), "{{\"op\":\"rend\"}}\n");
    sys::flush();
}

fn head(id: u64, dt: &str, form: &str, ty: &str, nb: usize, refuse: bool, tol: usize, note: &str) {
    let _ = write!(sys::buf(), "{{\"op\":\"prog\",\"id\":{},\"dt\":\"{}\",\"form\":\"{}\",\"via\":\"{}\",\"nb\":{},\"refuse\":{},\"tol\":{},\"focus\":\"C19\",\"range\":\"{}\"}}\n", id, dt, form, ty, nb, refuse, tol, note);
}

macro_rules! ints { ($t:ident, $id:expr, $r:expr, $total:expr, $fixed:expr, $low:expr, $high:expr, $nb:expr, $refuse:expr) => {{
    let (r, low, high, nb, refuse): (&mut Rng, $t, $t, usize, bool) = ($r, $low, $high, $nb, $refuse);
    let width = (high as u128).wrapping_sub(low as u128);
    let per = (width / nb as u128).max(1);
    let fine = width >> 60 != 0;
    head($id, stringify!($t), "randint", "array", nb, refuse, if fine { 1 } else { 0 }, &format!("{}..{}", low, high));
    stream(r, $total, $fixed, nb, refuse, fine, |x: $t| x as u128,
        |x: $t| if x < low { Cell::Low } else if x >= high { Cell::High } else { Cell::In((((x as u128).wrapping_sub(low as u128)) / per) as usize) },
        |sh| arr(NdArray::<$t>::randint(sh, low, high), true));
}} }

macro_rules! int_stream { ($t:ident, $id:expr, $r:expr, $total:expr) => {{
    let r: &mut Rng = $r;
    let (mn, mx) = ($t::MIN, $t::MAX);
    // (low, high, buckets)
    let pick = |r: &mut Rng, w: $t| -> $t { let room = mx - w; match r.below(4) { 0 => mn, 1 => room, 2 => if mn == 0 { (r.below(50)) as $t } else { (0 as $t).wrapping_sub(r.below(60) as $t) }, _ => 3 as $t } };
    let (low, high, nb, refuse) = match r.below(10) {
        0..=4 => { let w = (2 + r.below(15)) as $t; let l = pick(r, w); (l, l + w, w as usize, false) }
        5 => { let l = pick(r, 1); (l, l + 1, 1, false) }
        6 | 7 => (mn, mx, 5, false),
        8 => { let w = ((8 + r.below(7)) * 8) as $t; let l = pick(r, w); (l, l + w, 8, false) }
        _ => { let l = pick(r, 20); (l, if r.chance(50) { l } else if l > mn { mn } else { l }, 1, true) }
    };
    ints!($t, $id, r, $total, &[], low, high, nb, refuse);
}} }
const NORM: [f64; 9] = [-2.5, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.5];
macro_rules! floats { ($t:ident, $id:expr, $r:expr, $total:expr, $fixed:expr, $isten:expr, $form:expr, $lo:expr, $hi:expr) => {{
    let (r, isten, form, lo, hi): (&mut Rng, bool, &str, $t, $t) = ($r, $isten, $form, $lo, $hi);
    let dt = stringify!($t);
    let via = if isten { "tensor" } else { "array" };
    let k = |x: $t| x.to_bits() as u128;
    match form {
        "randn" => {
            head($id, dt, "randn", via, 10, false, if dt == "f32" { 400 } else { 3 }, "");
            stream(r, $total, $fixed, 10, false, true, k, |x: $t| if !x.is_finite() { Cell::Odd } else { Cell::In(NORM.iter().take_while(|&&b| x as f64 >= b).count()) },
                |sh| if isten { ten(Tensor::<$t>::randn(sh)) } else { arr(NdArray::<$t>::randn(sh), true) });
        }
        "rand" | "uniform" => {
            let unit = form == "rand";
            let nb = 8;
            head($id, dt, form, via, nb, false, if dt == "f32" { 2000 } else { 3 }, &format!("{}..{}", lo, hi));
            let fine = dt == "f64" || unit;
            stream(r, $total, $fixed, nb, false, fine, k,
                |x: $t| if !x.is_finite() { Cell::Odd } else if x < lo { Cell::Low } else if x >= hi { Cell::High } else { Cell::In(((((x as f64 - lo as f64) / (hi as f64 - lo as f64)) * nb as f64) as usize).min(nb - 1)) },
                |sh| match (isten, unit) { (true, true) => ten(Tensor::<$t>::rand(sh)), (true, false) => ten(Tensor::<$t>::uniform(sh, lo, hi)), (false, true) => arr(NdArray::<$t>::rand(sh), true), _ => arr(NdArray::<$t>::uniform(sh, lo, hi), true) });
        }
        _ => {
            let refuse = !(lo < hi);
            let nb = if refuse { 1 } else { (hi - lo) as usize };
            head($id, dt, "randint", via, nb, refuse, 0, &format!("{}..{}", lo, hi));
            stream(r, $total, $fixed, nb, refuse, false, k,
                |x: $t| if x.fract() != 0.0 || !x.is_finite() { Cell::Odd } else if x < lo { Cell::Low } else if x >= hi { Cell::High } else { Cell::In((x - lo) as usize) },
                |sh| if isten { ten(Tensor::<$t>::randint(sh, lo, hi)) } else { arr(NdArray::<$t>::randint(sh, lo, hi), true) });
        }
    }
}} }

macro_rules! float_stream { ($t:ident, $id:expr, $r:expr, $total:expr) => {{
    let r: &mut Rng = $r;
    let isten = r.chance(45);
    match r.below(6) {
        0 | 1 => floats!($t, $id, r, $total, &[], isten, "randn", 0.0, 1.0),
        2 | 3 => {
            let unit = r.chance(45);
            // ranges of a few ulps are left out: the rand crate itself does not terminate on them
            let (lo, hi): ($t, $t) = if unit { (0.0, 1.0) }
                else { let l = r.range(-1000, 1000) as $t / 8.0; (l, l + *r.pick(&[0.125 as $t, 1.0, 3.0, 40.0, 1000.0])) };
            floats!($t, $id, r, $total, &[], isten, if unit { "rand" } else { "uniform" }, lo, hi)
        }
        _ => {
            let refuse = r.chance(12);
            let w = if r.chance(20) { 1 } else { 2 + r.below(14) as i64 };
            let l = r.range(-200, 200);
            let h = if refuse { l - r.below(3) as i64 } else { l + w };
            floats!($t, $id, r, $total, &[], isten, "randint", l as $t, h as $t)
        }
    }
}} }
/// a stream written by the bounded model: t = <<element type, "array"/"tensor">>, f the constructor, v the bounds
/// (counted from the ends of the type's range with v[3] = -1, 1; halves for uniform), one call per shape
pub fn replay(id: u64, cmds: &[crate::vm::Cmd]) {
    let c = &cmds[0];
    let shapes: Vec<Vec<usize>> = cmds.iter().map(|c| c.n.iter().map(|&x| x as usize).collect()).collect();
    let (lo, hi, at) = (c.v[0], c.v[1], c.v[2]);
    let r = &mut Rng::new(1, id, 19);
    macro_rules! int { ($t:ident) => {{
        let base: i128 = if at < 0 { $t::MIN as i128 } else if at > 0 { if $t::MAX as u128 > i128::MAX as u128 { i128::MAX } else { $t::MAX as i128 } } else { 0 };
        let (lo, hi) = match ($t::try_from(base + lo as i128), $t::try_from(base + hi as i128)) { (Ok(a), Ok(b)) => (a, b), _ => return };
        let refuse = lo >= hi;
        ints!($t, id, r, 0, &shapes, lo, hi, if refuse { 1 } else { (hi - lo) as usize }, refuse)
    }} }
    macro_rules! flt { ($t:ident) => {{
        let den: $t = if c.f == "uniform" { 2.0 } else { 1.0 };
        floats!($t, id, r, 0, &shapes, c.t[1] == "tensor", c.f.as_str(), lo as $t / den, hi as $t / den)
    }} }
    match c.t[0].as_str() {
        "i8" => int!(i8), "i16" => int!(i16), "i32" => int!(i32), "i64" => int!(i64), "i128" => int!(i128), "isize" => int!(isize),
        "u8" => int!(u8), "u16" => int!(u16), "u32" => int!(u32), "u64" => int!(u64), "u128" => int!(u128), "usize" => int!(usize),
        "f32" => flt!(f32), _ => flt!(f64),
    }
}

/// many samples of the unit interval: the neighbourhoods of its ends are reached as well
fn bulk(id: u64, total: usize) {
    head(id, "f32", "rand", "array", 8, false, 0, "0..1 bulk");
    let mut n = 0;
    while n < total {
        let sh = vec![1000, 1000];
        let _ = write!(sys::buf(), "{{\"op\":\"rand\",\"n\":{},", jsu(&sh));
        let x = match catch_unwind(|| NdArray::<f32>::rand(vec![1000, 1000])) { Ok(x) => x, Err(_) => { let _ = write!(sys::buf(), "\"out\":\"panic\"}}\n"); break; } };
        let (mut lo, mut hi, mut h) = (0, 0, vec![0i64; 8]);
        let mut cnt = 0;
        for &v in unsafe { std::slice::from_raw_parts(x.flatiter_ptr().next().unwrap(), if x.is_contiguous() { x.size() } else { 0 }) } { cnt += 1; if v < 0.0 { lo += 1; } else if !(v < 1.0) { hi += 1; } else { h[(v * 8.0) as usize] += 1; } }
        let _ = write!(sys::buf(), "\"out\":\"ok\",\"sh\":{},\"cnt\":{},\"c\":{},\"vw\":{},\"lf\":true,\"lo\":{},\"hi\":{},\"odd\":0,\"dup\":0,\"pr\":{},\"np\":{},\"same\":false,\"h\":{}}}\n",
            jsu(x.shape()), cnt, x.is_contiguous(), x.is_view(), lo, hi, cnt / 8, cnt, js(&h));
        n += 1_000_000;
    }
    let _ = write!(sys::buf(), "{{\"op\":\"rend\"}}\n");
    sys::flush();
}

pub fn program(id: u64, mut r: Rng, total: usize) {
    if id % 50 == 7 { return bulk(id, 15_000_000); }
    let dt = if r.chance(55) { *r.pick(&["f32", "f64"]) } else { TYPES[r.below(12)] };
    let r = &mut r;
    match dt {
        "i8" => int_stream!(i8, id, r, total), "i16" => int_stream!(i16, id, r, total), "i32" => int_stream!(i32, id, r, total), "i64" => int_stream!(i64, id, r, total), "i128" => int_stream!(i128, id, r, total), "isize" => int_stream!(isize, id, r, total),
        "u8" => int_stream!(u8, id, r, total), "u16" => int_stream!(u16, id, r, total), "u32" => int_stream!(u32, id, r, total), "u64" => int_stream!(u64, id, r, total), "u128" => int_stream!(u128, id, r, total), "usize" => int_stream!(usize, id, r, total),
        "f32" => float_stream!(f32, id, r, total), _ => float_stream!(f64, id, r, total),
    }
}
