//! Conformance harness: runs programs against the real library and records what happens.
mod alloc; mod elem; mod gen; mod rnd; mod rng; mod sys; mod tensor; mod vm;
macro_rules! with_type { ($n:expr, $f:ident ( $($a:expr),* )) => { match $n {
    "i8" => $f::<i8>($($a),*), "i16" => $f::<i16>($($a),*), "i32" => $f::<i32>($($a),*), "i64" => $f::<i64>($($a),*), "i128" => $f::<i128>($($a),*), "isize" => $f::<isize>($($a),*),
    "u8" => $f::<u8>($($a),*), "u16" => $f::<u16>($($a),*), "u32" => $f::<u32>($($a),*), "u64" => $f::<u64>($($a),*), "u128" => $f::<u128>($($a),*), "usize" => $f::<usize>($($a),*),
    "f32" => $f::<f32>($($a),*), "f64" => $f::<f64>($($a),*), _ => $f::<bool>($($a),*) } } }
mod replay;
use elem::*;
use gen::Gen;
use rng::Rng;
use vm::*;

#[global_allocator]
static GLOBAL: alloc::Arena = alloc::Arena;

struct Plan { fp: bool, wild: u8, pool: usize, bad: u32, large: bool, huge: bool, giant: bool, mean: bool, len: usize, nd: usize, maxel: usize, w: Vec<(&'static str, u32)> }

fn plan(focus: &str, id: u64, wide: usize, r: &mut Rng) -> Plan {
    let mut p = Plan { fp: false, wild: 1, pool: 40, bad: 8, large: r.chance(4), huge: false, giant: false, mean: false, len: r.range(5, 14) as usize, nd: 5, maxel: 90, w: vec![] };
    p.w = match focus {
        "C01" => vec![("view", 80), ("mk", 10), ("diag", 8), ("read", 2)],
        "C02" => vec![("view", 40), ("copy", 12), ("set", 16), ("fill", 8), ("assign", 10), ("drop", 3), ("read", 2), ("binop", 4), ("reduce", 2), ("astype", 2), ("mk", 4)],
        "C03" => vec![("view", 55), ("data", 25), ("copy", 8), ("mk", 12), ("binop", 3), ("reduce", 3), ("full", 3), ("new", 3)],
        "C04" => vec![("view", 30), ("mk", 12), ("read", 10), ("get", 26), ("set", 8), ("iter", 40), ("value", 4)],
        "C05" => vec![("mk", 18), ("bcast", 40), ("binop", 40), ("set", 4), ("fill", 3), ("assign", 8), ("view", 10)],
        "C06" => vec![("binop", 75), ("neg", 10), ("mk", 8), ("view", 8)],
        "C07" => vec![("assign", 45), ("fill", 15), ("set", 15), ("view", 20), ("mk", 15), ("copy", 3)],
        "C08" => vec![("reduce", 80), ("mk", 12), ("view", 12)],
        "C09" => vec![("einsum", 45), ("einc", 35), ("einv", 10), ("mk", 6), ("view", 4)],
        "C10" => vec![("mat", 45), ("trace", 25), ("diag", 20), ("mk", 5), ("view", 6)],
        "C14" => vec![("view", 34), ("copy", 8), ("drop", 14), ("data", 12), ("binop", 8), ("neg", 3), ("assign", 6), ("reduce", 5), ("einsum", 4), ("mat", 4), ("new", 6), ("full", 3), ("iter", 6), ("get", 8), ("set", 8), ("fill", 3), ("mk", 8), ("astype", 2), ("eq", 2), ("debug", 2), ("trace", 2)],
        "C15" => vec![("new", 50), ("full", 15), ("arange", 25), ("linspace", 15)],
        "C16" => vec![("eq", 50), ("debug", 20), ("astype", 30), ("mk", 15), ("view", 15)],
        "C17" => vec![("view", 45), ("get", 8), ("set", 8), ("iter", 6), ("value", 4), ("binop", 8), ("assign", 8), ("reduce", 8), ("einsum", 5), ("mat", 6), ("trace", 4), ("bcast", 8), ("data", 4), ("new", 4), ("full", 2), ("mk", 10), ("fill", 3)],
        _ => vec![("view", 20), ("mk", 10), ("read", 5)],
    };
    match focus {
        "C06" | "C07" => { p.fp = r.chance(10); p.pool = 10; p.wild = r.below(3) as u8; if p.large { p.maxel = 400; } }
        "C08" => { p.fp = r.chance(55); p.mean = p.fp && r.chance(30); p.wild = 2; p.maxel = 120; }
        "C09" | "C10" => { p.fp = true; }
        "C15" => { p.fp = r.chance(60); p.bad = 25; }
        "C16" => { p.wild = *r.pick(&[1, 2, 3]); p.pool = 8; }
        "C17" => { p.fp = r.chance(35); p.bad = 45; p.pool = 12; }
        "C14" | "C02" | "C05" => { p.fp = r.chance(35); p.pool = 12; }
        _ => {}
    }
    // many axes throughout
    if !p.large && id % 23 == 11 { p.nd = 99; if focus == "C05" { p.bad = 25; } }
    if p.large { p.len = p.len.min(6); p.maxel = 2500; }
    if p.large && r.chance(10) { p.huge = true; p.len = 3; p.maxel = 12000; }
    if id % 1500 == 750 && wide <= 8 { p.large = true; p.huge = true; p.giant = true; p.len = 2; p.maxel = 90000; }
    p
}

fn program<T: Elem>(focus: &str, id: u64, mut r: Rng) {
    let p = plan(focus, id, std::mem::size_of::<T>(), &mut r);
    if focus == "C14" { alloc::set_mode((id % 3) as usize); }
    let pool = if p.fp { vec![] } else { let n = 2 + r.below(p.pool); T::pool(&mut r, p.wild, n) };
    let mut vm = Vm::<T>::new(p.fp, pool);
    // large magnitudes: exact in the element type, not in narrower ones
    if p.fp && !p.mean && ["C08", "C09", "C10"].contains(&focus) && T::maxint() > 1e6 && r.chance(45) {
        let b = T::maxint().log2() * *r.pick(&[0.36, 0.42, 0.46, 0.8]);
        vm.spread = (((b - 15.6).exp2()) as i128).max(0);
    }
    // folds over infinities and not-a-numbers
    let ex = if p.fp && vm.spread == 0 && !p.large && T::KIND == Kind::Float && ["C08", "C09", "C10"].contains(&focus) && r.chance(40) { 1 + r.below(3) as u32 } else { 0 };
    vm.header(id, focus);
    let mut g = Gen { vm: &mut vm, rng: r, bad: p.bad, large: p.large, huge: p.huge, giant: p.giant, maxel: p.maxel, nd: p.nd, mean: p.mean, ex, tiny: false };
    let mk = |g: &mut Gen<T>| { let sh = g.shape(); let d = g.rng.below(4); g.mk(&sh, d); };
    mk(&mut g);
    let names: Vec<u32> = p.w.iter().map(|x| x.1).collect();
    let mut tries = 0;
    let mut done = 0;
    while done < p.len && tries < 60 && !g.vm.poisoned && g.vm.events < 40 {
        tries += 1;
        let before = g.vm.events;
        match p.w[g.rng.weighted(&names)].0 {
            "view" => { g.act_view(); } "mk" => mk(&mut g), "copy" => { g.act_copy(); } "read" => { g.act_read(); } "get" => { g.act_get(); } "set" => { g.act_set(); }
            "fill" => { g.act_fill(); } "iter" => { g.act_iter(); } "data" => { g.act_data(); } "value" => { g.act_value(); } "drop" => { g.act_drop(); }
            "binop" => { g.act_binop(if focus == "C05" { 5 } else { 25 }); } "neg" => { g.act_neg(); } "assign" => { g.act_assign(); } "reduce" => { g.act_reduce(); }
            "einsum" => { g.act_einsum(); } "einc" => { g.act_einsum_common(); } "mat" => { g.act_mat(); } "trace" => { g.act_trace(); } "diag" => { g.act_diag(); }
            "eq" => { g.act_eq(); } "debug" => { g.act_debug(); } "astype" => { g.act_astype(); } "new" => { g.act_new(); } "full" => { g.act_full(); }
            "arange" => { g.act_arange(); } "linspace" => { g.act_linspace(); }
            "bcast" => { let k: Vec<i64> = g.vm.slots.keys().copied().collect(); if !k.is_empty() { let s = *g.rng.pick(&k); let bad = { let b = g.bad; g.rng.chance(b) }; g.act_bcast(s, bad); } }
            "einv" => { let k: Vec<i64> = g.vm.slots.keys().copied().collect(); if !k.is_empty() { let s = *g.rng.pick(&k); let bad = { let b = g.bad; g.rng.chance(b) }; g.act_einview(s, bad); } }
            _ => {}
        }
        if g.vm.events > before { done += 1; }
    }
    vm.finish();
    sys::flush();
}

fn dtype(focus: &str, r: &mut Rng) -> &'static str {
    match focus {
        "C09" | "C10" => *r.pick(&["f32", "f64", "f32", "f64", "f32", "f64", "i32", "i64", "i16", "u32", "u64", "i128", "u128", "isize", "usize", "u16", "i8", "u8"]),
        "C08" => *r.pick(&["f32", "f64", "f32", "f64", "f32", "f64", "i32", "i64", "i16", "u32", "u64", "i128", "u128", "isize", "usize", "u16", "i8", "u8"]),
        "C06" | "C07" | "C16" => DTYPES[r.below(15)],
        "C15" => *r.pick(&["f32", "f64", "f32", "f64", "i32", "i64", "i16", "u32", "u64", "i128", "u128", "isize", "usize", "u16", "i8", "u8", "bool"]),
        _ => if r.chance(45) { *r.pick(&["f32", "f64", "i32"]) } else { DTYPES[r.below(15)] },
    }
}

fn hash(s: &str) -> u64 { s.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211)) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
    let out = get("--out", "/dev/stdout");
    let fd = unsafe { libc::open(std::ffi::CString::new(out).unwrap().as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND, 0o644) };
    assert!(fd >= 0);
    // warm up lazily initialised state of the runtime
    let _ = std::panic::catch_unwind(|| { std::panic::set_hook(Box::new(|_| {})); panic!("warm-up") });
    alloc::init();
    sys::init(fd);
    let focus = get("--focus", "C01");
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let start: u64 = get("--start", "0").parse().unwrap();
    let count: u64 = get("--count", "10").parse().unwrap();
    let stride: u64 = get("--stride", "1").parse().unwrap();
    let file = get("--replay", "");
    if !file.is_empty() { replay::run(&file, start, count); return; }
    let mut id = start;
    while id < count {
        let mut r = Rng::new(seed, id, hash(&focus));
        if let Some(f) = focus.strip_prefix("T-") {
            if r.chance(70) { tensor::program::<f64>(f, id, r) } else { tensor::program::<f32>(f, id, r) }
            id += stride;
            continue;
        }
        if focus == "C19" { rnd::program(id, r, 90_000); id += stride; continue; }
        let dt = dtype(&focus, &mut r);
        with_type!(dt, program(&focus, id, r));
        id += stride;
    }
}
