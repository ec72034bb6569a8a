//! The array machine: executes one command against the real library and records what happened.
use crate::alloc;
use crate::elem::*;
use crate::sys;
use redstone_ml::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub enum Tok { V(i64), N(Vec<Tok>) }

#[derive(Clone, Default, Debug)]
pub struct Cmd {
    pub op: String, pub s: Vec<i64>, pub c: Vec<i64>, pub d: i64, pub n: Vec<i64>, pub t: Vec<String>, pub f: String,
    pub v: Vec<i64>, pub lab: Vec<Vec<i64>>, pub lo: Vec<i64>, pub x: Vec<Tok>,
}
pub fn cmd(op: &str) -> Cmd { Cmd { op: op.into(), ..Default::default() } }

pub struct Slot<T: Elem> {
    pub arr: Box<A<T>>, pub parent: i64, pub buf: usize, pub off: i64, pub sh: Vec<usize>, pub st: Vec<usize>,
    pub own: bool, pub unif: bool, pub contig: bool, pub ro: bool,
}
pub struct Buf { pub ptr: usize, pub n: usize, pub snap: Vec<u8>, pub live: bool, pub rec: usize }

pub struct Vm<T: Elem> {
    pub fp: bool,
    pub slots: BTreeMap<i64, Slot<T>>,
    pub next: i64,
    pub bufs: Vec<Buf>,               // buffer ids are index + 1
    pub vals: Vec<T>, pub ids: HashMap<u128, i64>,
    pub npool: usize,
    pub poisoned: bool,
    pub events: usize,
    pub panicked: bool, pub spread: i128 }

pub enum Res<T: Elem> { Arr(A<T>), Seq(Vec<T>), Items(Vec<A<T>>), Bool(bool), Text(String), Any(AnyA), None }
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Out { Ok, Panic }

pub fn js(v: &[i64]) -> String { let mut s = String::from("["); for (i, x) in v.iter().enumerate() { if i > 0 { s.push(','); } let _ = write!(s, "{}", x); } s.push(']'); s }
pub fn jsu(v: &[usize]) -> String { js(&v.iter().map(|&x| x as i64).collect::<Vec<_>>()) }
fn jtok(t: &Tok) -> String { match t { Tok::V(i) => i.to_string(), Tok::N(v) => format!("[{}]", v.iter().map(jtok).collect::<Vec<_>>().join(",")) } }

pub fn grid(off: i64, sh: &[usize], st: &[usize]) -> Vec<i64> {
    let mut g = vec![off];
    for (&n, &s) in sh.iter().zip(st) {
        let mut h = Vec::with_capacity(g.len() * n);
        for &x in &g { for j in 0..n { h.push(x + (j * s) as i64); } }
        g = h;
    }
    g
}
pub fn size(sh: &[usize]) -> usize { sh.iter().product() }

pub struct Desc { pub sh: Vec<usize>, pub st: Vec<usize>, c: bool, u: bool, us: i64, vw: bool, ln: usize, sz: usize, nd: usize, ptr: usize, ok: bool }
fn meta<M: StridedMemory>(d: &mut Desc, a: &M) {
    d.sh = a.shape().to_vec(); d.st = a.stride().to_vec();
    d.c = a.is_contiguous(); d.u = a.is_uniformly_strided();
    d.us = a.has_uniform_stride().map(|x| x as i64).unwrap_or(-1);
    d.vw = a.is_view(); d.ln = a.len(); d.sz = a.size(); d.nd = a.ndims();
}
/// everything the public interface says about an array, and its elements
pub fn describe<T: Elem>(a: &A<T>) -> (Desc, Vec<T>) {
    let mut d = Desc { sh: vec![], st: vec![], c: false, u: false, us: -1, vw: false, ln: 0, sz: 0, nd: 0, ptr: 0, ok: true };
    let mut els: Vec<T> = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        // asked of the array and of a reference to it in turn
        static TURN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if TURN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 3 == 0 { meta(&mut d, &a) } else { meta(&mut d, a) }
        d.ptr = a.flatiter_ptr().next().map(|p| p as usize).unwrap_or(0);
        els = a.flatiter().take(150000).collect();
    }));
    if r.is_err() { d.ok = false; }
    (d, els)
}

pub fn to_index(k: i64, a: i64, b: i64) -> Index {
    let (a, b) = (a as usize, b as usize);
    match k { 0 => Index::from(a), 1 => Index::from(a..b), 2 => Index::from(a..), 3 => Index::from(..), 4 => Index::from(a..=b), 5 => Index::from(..b), _ => Index::from(..=b) }
}
pub fn labels(ls: &[i64]) -> String { ls.iter().map(|&l| match l { -1 => '1', -2 => '-', -3 => '\u{e9}', l => if l <= 26 { (b'a' + l as u8 - 1) as char } else { (b'A' + l as u8 - 27) as char } }).collect() }

impl<T: Elem> Vm<T> {
    pub fn new(fp: bool, pool: Vec<T>) -> Self {
        let mut v = pool;
        if !fp {
            if T::KIND == Kind::Float { v.push(T::of(0)); v.push(T::nege(T::of(0)).unwrap()); }
            let abs: Vec<T> = v.iter().filter_map(|x| x.absv()).collect();
            v.extend(abs);
            v.sort_by(|a, b| if T::less(*a, *b) { std::cmp::Ordering::Less } else if T::less(*b, *a) { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal });
            v.dedup_by_key(|x| x.key());
        } else { v.clear(); }
        let mut vm = Vm { fp, slots: BTreeMap::new(), next: 1, bufs: vec![], vals: vec![], ids: HashMap::new(), npool: 0, poisoned: false, events: 0, panicked: false, spread: 0 };
        for x in v { vm.intern(x.key(), Some(x)); }
        vm.npool = vm.vals.len();
        vm
    }
    fn intern(&mut self, k: u128, v: Option<T>) -> i64 {
        if let Some(&i) = self.ids.get(&k) { return i; }
        self.vals.push(v.unwrap_or_default());
        let i = self.vals.len() as i64;
        self.ids.insert(k, i);
        i
    }
    /// a number with the residue of t: t itself, or one of a larger magnitude
    fn wide(&self, t: i64) -> i128 {
        if self.spread == 0 || t == 0 { return t as i128; }
        let h = ((t as i128 + 50000) * 2654435761 * 40503 + 977) >> 9;
        let h = (h * h) >> 3;
        t as i128 + P as i128 * if T::KIND == Kind::Uint { h % (self.spread + 1) } else { h % (2 * self.spread + 1) - self.spread }
    }
    pub fn tok(&mut self, x: T) -> i64 { if self.fp { x.res() } else { self.intern(x.key(), Some(x)) } }
    pub fn toks(&mut self, v: &[T]) -> Vec<i64> { v.iter().map(|&x| self.tok(x)).collect() }
    pub fn val(&self, t: i64) -> T {
        if self.fp && t < 0 { return T::special(t); }
        if self.fp { T::big(self.wide(if t > P / 2 { t - P } else { t })) } else { self.vals[(t - 1) as usize] }
    }
    pub fn header(&mut self, id: u64, focus: &str) {
        let (mut z, mut nz, mut nan) = (0, 0, if self.fp { -1 } else { -7 });
        let mut abs = vec![];
        if !self.fp {
            if T::KIND == Kind::Float {
                z = self.ids[&T::of(0).key()]; nz = self.ids[&T::nege(T::of(0)).unwrap().key()];
                if let Some(&i) = self.ids.get(&u128::MAX) { nan = i; }
            }
            for i in 0..self.npool { let a = self.vals[i].absv(); abs.push(match a { Some(x) => self.tok(x), None => 0 }); }
        }
        let _ = write!(sys::buf(), "{{\"op\":\"prog\",\"id\":{},\"dt\":\"{}\",\"md\":\"{}\",\"z\":{},\"nz\":{},\"nan\":{},\"abs\":{},\"focus\":\"{}\"}}\n",
                       id, T::NAME, if self.fp { "fp" } else { "in" }, z, nz, nan, js(&abs), focus);
    }

    pub fn has_children(&self, s: i64) -> bool { self.slots.values().any(|x| x.parent == s) }
    pub fn cells(&self, s: i64) -> Vec<i64> { let x = &self.slots[&s]; grid(x.off, &x.sh, &x.st) }
    /// elements by the recorded layout, read from memory
    pub fn els(&self, s: i64) -> Vec<T> {
        let x = &self.slots[&s];
        let b = &self.bufs[x.buf];
        self.cells(s).iter().map(|&c| unsafe { *((b.ptr as *const T).offset(c as isize)) }).collect()
    }
    fn r(&self, s: i64) -> &'static A<T> { unsafe { &*(self.slots[&s].arr.as_ref() as *const A<T>) } }
    fn take(&mut self, s: i64) -> A<T> { *self.slots.remove(&s).unwrap().arr }
    fn arg(&mut self, s: i64, c: &[i64]) -> Arg<T> { if c.contains(&s) { V(self.take(s)) } else { R(self.r(s)) } }

    fn prefix(&mut self, c: &Cmd) -> String {
        let mut p = format!("{{\"op\":\"{}\",\"s\":{},\"c\":{},\"d\":{},\"n\":{},\"f\":\"{}\",\"v\":{},\"t\":[{}],", c.op, js(&c.s), js(&c.c), c.d, js(&c.n), c.f, js(&c.v),
            c.t.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","));
        if c.op.starts_with("einsum") { let _ = write!(p, "\"lab\":[{}],\"lo\":{},", c.lab.iter().map(|l| js(l)).collect::<Vec<_>>().join(","), js(&c.lo)); }
        if c.op == "new" { let _ = write!(p, "\"x\":[{}],", c.x.iter().map(jtok).collect::<Vec<_>>().join(",")); }
        if !self.fp && (c.op == "binop" || c.op == "assign" || c.op == "neg") {
            let mut rows: Vec<T> = self.els(c.s[0]);
            dedup(&mut rows);
            let mut cols: Vec<T> = if c.op == "neg" { vec![] } else if c.s.len() == 2 { self.els(c.s[1]) } else { vec![self.val(c.v[0])] };
            dedup(&mut cols);
            let m: Vec<String> = rows.iter().map(|&a| {
                let row: Vec<i64> = if c.op == "neg" { vec![T::nege(a).map(|x| self.tok(x)).unwrap_or(0)] }
                    else { cols.iter().map(|&b| T::scalar(&c.t[0], a, b).map(|x| self.tok(x)).unwrap_or(0)).collect() };
                js(&row)
            }).collect();
            let (r, k) = (self.toks(&rows), self.toks(&cols));
            let _ = write!(p, "\"tab\":{{\"r\":{},\"c\":{},\"m\":[{}]}},", js(&r), js(&k), m.join(","));
        }
        p
    }

    pub fn exec(&mut self, c: &Cmd) -> Out {
        let mut c = c.clone();
        if c.d == -1 { c.d = self.next; }
        let c = &c;
        let mut conv: Vec<i64> = vec![];
        let mut dst_ids: HashMap<u128, i64> = HashMap::new();
        let mut pre = self.prefix(c);
        if c.op == "astype" {
            let els = self.els(c.s[0]);
            for x in els { self.tok(x); }
            for v in self.vals.iter() {
                conv.push(match v.conv(&c.t[0]) { None => 0, Some(k) => { let n = dst_ids.len() as i64 + 1; *dst_ids.entry(k).or_insert(n) } });
            }
            let _ = write!(pre, "\"conv\":{},", js(&conv));
        }
        *sys::pending() = pre;
        let parent = if c.c.is_empty() { c.s.first().copied().unwrap_or(0) } else { self.slots[&c.s[0]].parent };
        let src_ro = c.s.first().map(|s| self.slots[s].ro).unwrap_or(false);
        let res = self.call(c);
        let out = if res.is_some() { Out::Ok } else { Out::Panic };
        if out == Out::Panic { self.panicked = true; }
        let mut tail = String::new();
        let mut changes: Vec<String> = vec![];
        // new or changed memory
        let mut discard: Option<A<T>> = None;
        let mut freed = vec![];
        match res {
            None => tail.push_str("\"out\":\"panic\",\"rk\":\"none\","),
            Some(Res::None) => tail.push_str("\"out\":\"ok\",\"rk\":\"none\","),
            Some(Res::Bool(b)) => { let _ = write!(tail, "\"out\":\"ok\",\"rk\":\"bool\",\"b\":{},", b); }
            Some(Res::Seq(v)) => { let q = self.toks(&v); let _ = write!(tail, "\"out\":\"ok\",\"rk\":\"seq\",\"q\":{},", js(&q)); drop(v); }
            Some(Res::Text(s)) => { let q = self.debug_toks(&s); let _ = write!(tail, "\"out\":\"ok\",\"rk\":\"seq\",\"q\":{},", js(&q)); drop(s); }
            Some(Res::Items(v)) => {
                tail.push_str("\"out\":\"ok\",\"rk\":\"items\",\"items\":[");
                for (i, a) in v.iter().enumerate() {
                    let (d, e) = describe(a);
                    let q = if d.ok { self.toks(&e) } else { vec![-8] };
                    if i > 0 { tail.push(','); }
                    let _ = write!(tail, "{{\"sh\":{},\"q\":{}}}", jsu(&d.sh), js(&q));
                }
                tail.push_str("],");
                drop(v);
            }
            Some(Res::Any(a)) => {
                macro_rules! go { ($($n:ident),*) => { match a { $(AnyA::$n(x) => {
                    let (d, e) = describe(&x);
                    let q: Vec<i64> = e.iter().map(|v| dst_ids.get(&v.key()).copied().unwrap_or(-4)).collect();
                    let known = alloc::find(d.ptr).and_then(|i| if alloc::rec(i).live { Some(self.bufs.iter().position(|b| b.live && b.rec == i).map(|p| p + 1).unwrap_or(self.bufs.len() + 1)) } else { None });
                    let b = known.map(|x| x as i64).unwrap_or(-1);
                    tail.push_str(&desc_json(&d, b, 0, &q));
                    if b > self.bufs.len() as i64 { changes.push(format!("{{\"b\":{},\"q\":{}}}", b, js(&q))); freed.push(b); }
                    drop(x);
                })* } } }
                go!(I8, I16, I32, I64, I128, Isize, U8, U16, U32, U64, U128, Usize, F32, F64);
            }
            Some(Res::Arr(a)) => {
                let (d, e) = describe(&a);
                let q = if d.ok { if scaled(c) { self.lin_toks(c, &e) } else { self.toks(&e) } } else { vec![-8] };
                let sz = std::mem::size_of::<T>();
                let mut b = -1i64; let mut off = 0i64;
                let total = d.sh.iter().fold(1f64, |p, &x| p * x as f64);
                let mut bad = !d.ok || d.st.len() != d.sh.len() || total > 150000.0 || total == 0.0 || d.st.iter().any(|&x| x > 1000000) || d.us > 1000000;
                if let Some(i) = alloc::find(d.ptr) {
                    let r = alloc::rec(i);
                    if r.live {
                        off = ((d.ptr - r.ptr) / sz) as i64;
                        let k = match self.bufs.iter().position(|x| x.live && x.rec == i) {
                            Some(k) => k,
                            None => {
                                let span: usize = if bad { 0 } else { d.sh.iter().zip(&d.st).map(|(&n, &s)| (n - 1) * s).sum::<usize>() };
                                let n = (off as usize + span + 1).min(r.size / sz);
                                self.bufs.push(Buf { ptr: r.ptr, n, snap: vec![], live: true, rec: i });
                                self.bufs.len() - 1
                            }
                        };
                        b = k as i64 + 1;
                    }
                }
                if b < 0 { bad = true; }
                if !bad { let g = grid(off, &d.sh, &d.st); let n = self.bufs[b as usize - 1].n as i64; if g.iter().any(|&x| x < 0 || x >= n) { bad = true; } }
                if total > 150000.0 || !d.ok || d.st.iter().any(|&x| x > 1000000) || d.us > 1000000 {
                    // not presentable: report an empty description
                    let _ = write!(tail, "\"out\":\"ok\",\"rk\":\"bad\",");
                } else { tail.push_str(&desc_json(&d, b, off, &q)); }
                let ro = c.op == "broadcast_to" || (src_ro && is_view_op(&c.op));
                if !bad && c.d != 0 {
                    let view = d.vw || is_view_op(&c.op);
                    self.slots.insert(c.d, Slot { arr: Box::new(a), parent: if view { parent } else { 0 }, buf: b as usize - 1, off, sh: d.sh, st: d.st, own: !d.vw, unif: d.u, contig: d.c, ro });
                    self.next = self.next.max(c.d + 1);
                } else if bad { self.poisoned = true; std::mem::forget(a); }
                else { discard = Some(a); }
            }
        }
        // memory
        let sz = std::mem::size_of::<T>();
        for k in 0..self.bufs.len() {
            if !self.bufs[k].live { continue; }
            let (p, n, r) = (self.bufs[k].ptr, self.bufs[k].n, self.bufs[k].rec);
            if !alloc::rec(r).live { self.bufs[k].live = false; freed.push(k as i64 + 1); continue; }
            let now = unsafe { std::slice::from_raw_parts(p as *const u8, n * sz) };
            if self.bufs[k].snap != now {
                self.bufs[k].snap = now.to_vec();
                let els: Vec<T> = (0..n).map(|i| unsafe { *((p as *const T).add(i)) }).collect();
                let q = if scaled(c) && k + 1 == self.bufs.len() { self.lin_toks(c, &els) } else { self.toks(&els) };
                changes.push(format!("{{\"b\":{},\"q\":{}}}", k + 1, js(&q)));
            }
        }
        if let Some(a) = discard {
            sys::lib(move || drop(a));
            for k in 0..self.bufs.len() { if self.bufs[k].live && !alloc::rec(self.bufs[k].rec).live { self.bufs[k].live = false; freed.push(k as i64 + 1); } }
        }
        alloc::scan_live();
        let errs = alloc::take_errs();
        if !errs.is_empty() { self.poisoned = true; }
        let live_dangling = self.slots.values().any(|s| !self.bufs[s.buf].live);
        if live_dangling { self.poisoned = true; }
        let pre = std::mem::take(sys::pending());
        let _ = write!(sys::buf(), "{}{}\"mem\":[{}],\"freed\":{},\"err\":[{}]}}\n", pre, tail, changes.join(","), js(&freed),
                       errs.iter().map(|&e| format!("\"{}\"", alloc::err_name(e))).collect::<Vec<_>>().join(","));
        self.events += 1;
        out
    }

    fn lin_toks(&self, c: &Cmd, v: &[T]) -> Vec<i64> {
        // values times the number of steps, which are integers
        let num = c.n[2]; let steps = if c.op == "arange" { -c.n[3] } else if num <= 1 { 1 } else if c.n[3] == 1 { num } else { num - 1 } as i64;
        let eps = if T::NAME == "f32" { 6e-8 } else { 1.2e-16 };
        let scale = (c.n[0].abs().max(c.n[1].abs()).max(1) * if c.op == "arange" { 1 } else { steps }) as f64;
        v.iter().map(|x| { let y = x.f() * steps as f64; let r = y.round(); if (y - r).abs() <= 8.0 * eps * scale { float_res(r, 0.0) } else { -5 } }).collect()
    }

    fn debug_toks(&mut self, s: &str) -> Vec<i64> {
        let mut q = vec![];
        let mut cur = String::new();
        for ch in s.chars().chain(" ".chars()) {
            if ch == '[' || ch == ']' || ch == ',' || ch.is_whitespace() {
                if !cur.is_empty() { q.push(match T::parse(&cur) { Some(v) => self.tok(v), None => -9 }); cur.clear(); }
                if ch == '[' { q.push(-1) } else if ch == ']' { q.push(-2) }
            } else { cur.push(ch); }
        }
        q
    }

    /// the library call itself
    fn call(&mut self, c: &Cmd) -> Option<Res<T>> {
        use Res::*;
        let s0 = c.s.first().copied().unwrap_or(0);
        let n = c.n.clone();
        let un: Vec<usize> = n.iter().map(|&x| x as usize).collect();
        let consume = c.f == "c";
        let axis = c.t.first().map(|x| x == "axis").unwrap_or(false);
        macro_rules! viewop { ($m:ident ( $($a:expr),* )) => {
            if consume { let a = self.take(s0); sys::lib(move || Arr(a.$m($($a),*))) } else { let a = self.r(s0); sys::lib(move || Arr(a.$m($($a),*))) } } }
        match c.op.as_str() {
            "view" => viewop!(view()),
            "reshape" => match c.t.first().map(|x| x.as_str()).unwrap_or("") {
                "arr" => match un.len() { 1 => viewop!(reshape([un[0]])), 2 => viewop!(reshape([un[0], un[1]])), 3 => viewop!(reshape([un[0], un[1], un[2]])), _ => viewop!(reshape(un)) },
                "slice" => { let p = Box::into_raw(un.into_boxed_slice()); let x: &'static [usize] = unsafe { &*p }; let r = viewop!(reshape(x)); unsafe { drop(Box::from_raw(p)); } r }
                "range" if un.len() > 1 && un.windows(2).all(|w| w[1] == w[0] + 1) => { let (a, b) = (un[0], un[un.len() - 1] + 1); viewop!(reshape(a..b)) }
                "one" if un.len() == 1 => viewop!(reshape(un[0])),
                _ => viewop!(reshape(un)),
            },
            "squeeze" => viewop!(squeeze()),
            "unsqueeze" => if axis { viewop!(unsqueeze(Axis(n[0] as isize))) } else { viewop!(unsqueeze(n[0] as isize)) },
            "T" => viewop!(T()),
            "transpose" => if axis { viewop!(transpose(Axis(n[0] as isize), Axis(n[1] as isize))) } else { viewop!(transpose(n[0] as isize, n[1] as isize)) },
            "slice" => {
                let a = self.r(s0);
                let k: Vec<i64> = n.chunks(3).map(|x| x[0]).collect();
                if !k.is_empty() && k.iter().all(|&x| x == 0) && axis { let ix: Vec<usize> = n.chunks(3).map(|x| x[1] as usize).collect(); sys::lib(move || Arr(a.slice(ix))) }
                else if !k.is_empty() && k.iter().all(|&x| x == 1) && axis { let ix: Vec<std::ops::Range<usize>> = n.chunks(3).map(|x| x[1] as usize..x[2] as usize).collect(); sys::lib(move || Arr(a.slice(ix))) }
                else { let ix: Vec<Index> = n.chunks(3).map(|x| to_index(x[0], x[1], x[2])).collect(); sys::lib(move || Arr(a.slice(ix))) }
            }
            "slice_along" => {
                let a = self.r(s0); let ax = n[0] as isize; let (x, y) = (n[2] as usize, n[3] as usize);
                sys::lib(move || Arr(match n[1] {
                    0 => a.slice_along(Axis(ax), x), 1 => a.slice_along(Axis(ax), x..y), 2 => a.slice_along(Axis(ax), x..), 3 => a.slice_along(Axis(ax), ..),
                    4 => a.slice_along(Axis(ax), x..=y), 5 => a.slice_along(Axis(ax), ..y), _ => a.slice_along(Axis(ax), ..=y) }))
            }
            "diag" => {
                let a = self.r(s0); let (o, x, y) = (n[0] as isize, n[1] as isize, n[2] as isize); let form = c.t[0].clone();
                sys::lib(move || Arr(match form.as_str() { "p" => a.diagonal(), "o" => a.offset_diagonal(o), "a" => a.diagonal_along(x, y), "A" => a.diagonal_along(Axis(x), Axis(y)), _ => a.offset_diagonal_along(o, x, y) }))
            }
            "broadcast_to" => { let a = self.r(s0); sys::lib(move || Arr(a.broadcast_to(&un))) }
            "einsum_view" => { let a = self.r(s0); let (l, o) = (labels(&c.lab[0]), labels(&c.lo)); sys::lib(move || match T::einsum_view(a, &l, &o) { Some(x) => Arr(x), std::option::Option::None => None }) }
            "clone" => { let a = self.r(s0); sys::lib(move || Arr(a.clone())) }
            "flatten" => { let a = self.r(s0); sys::lib(move || Arr(a.flatten())) }
            "astype" => { let a = self.r(s0); let to = c.t[0].clone(); sys::lib(move || Any(T::astype(a, &to))) }
            "value" => { let a = self.r(s0); sys::lib(move || Seq(vec![a.value()])) }
            "data_slice" => { let a = self.r(s0); sys::lib(move || Seq(a.data_slice().to_vec())) }
            "into_vec" => { let a = self.take(s0); sys::lib(move || Seq(a.into_data_vector())) }
            "flatiter" => { let a = self.r(s0); let w = way(c); sys::lib(move || Seq(if w == 10 { a.flatiter_ptr().take(150000).map(|p| unsafe { *p }).collect() } else { drain(|| a.flatiter(), w) })) }
            "getidx" => { let a = self.r(s0); let u = c.f == "u"; sys::lib(move || Seq(vec![match un.len() {
                1 if u => a[un[0]],
                0 => a[[]], 1 => a[[un[0]]], 2 => a[[un[0], un[1]]], 3 => a[[un[0], un[1], un[2]]], 4 => a[[un[0], un[1], un[2], un[3]]],
                5 => a[[un[0], un[1], un[2], un[3], un[4]]], 6 => a[[un[0], un[1], un[2], un[3], un[4], un[5]]], _ => a[[un[0], un[1], un[2], un[3], un[4], un[5], un[6]]] }])) }
            "setidx" => { let v = self.val(c.v[0]); let u = c.f == "u"; let a = self.m(s0); sys::lib(move || { *(match un.len() {
                1 if u => &mut a[un[0]],
                0 => &mut a[[]], 1 => &mut a[[un[0]]], 2 => &mut a[[un[0], un[1]]], 3 => &mut a[[un[0], un[1], un[2]]], 4 => &mut a[[un[0], un[1], un[2], un[3]]],
                5 => &mut a[[un[0], un[1], un[2], un[3], un[4]]], 6 => &mut a[[un[0], un[1], un[2], un[3], un[4], un[5]]], _ => &mut a[[un[0], un[1], un[2], un[3], un[4], un[5], un[6]]] }) = v; None }) }
            "iter" => { let a = self.r(s0); let f = c.f.clone(); let w = way(c); sys::lib(move || Items(match f.as_str() {
                "plain" => drain(|| a.iter(), w), "along" => if w % 2 == 0 { drain(|| a.iter_along(n[0] as isize), w) } else { drain(|| a.iter_along(Axis(n[0] as isize)), w) },
                _ => match un.len() { 1 => drain(|| a.nditer([un[0]]), w), 2 => drain(|| a.nditer([un[0], un[1]]), w), _ => drain(|| a.nditer(un.clone()), w) } })) }
            "fill" => { let z = c.f == "z"; let v = self.val(c.v[0]); let a = self.m(s0); sys::lib(move || { if z { T::zero(a) } else { a.fill(v) } None }) }
            "binop" => {
                let a = self.arg(s0, &c.c);
                let b = if c.s.len() == 1 { S(self.val(c.v[0])) } else if c.s[1] == s0 { R(self.r(s0)) } else { self.arg(c.s[1], &c.c) };
                let o = c.t[0].clone(); sys::lib(move || Arr(T::binop(&o, a, b)))
            }
            "neg" => { let a = self.arg(s0, &c.c); sys::lib(move || Arr(T::neg(a))) }
            "assign" => { let b = if c.s.len() == 1 { S(self.val(c.v[0])) } else { self.arg(c.s[1], &c.c) }; let a = self.m(s0); let o = c.t[0].clone(); sys::lib(move || { T::assign(&o, a, b); None }) }
            "reduce" => { let a = self.r(s0); let ax = if c.f == "all" { std::option::Option::None } else { Some(n.iter().map(|&x| x as isize).collect()) }; let (o, f) = (c.t[0].clone(), c.f.clone()); sys::lib(move || Arr(T::reduce(&o, a, ax, &f))) }
            "einsum" => { let a: Vec<&A<T>> = c.s.iter().map(|&s| self.r(s) as &A<T>).collect(); let l: Vec<String> = c.lab.iter().map(|x| labels(x)).collect(); let o = labels(&c.lo); sys::lib(|| Arr(T::einsum(&a, &l, &o))) }
            "mat" => { let a = self.r(s0); let b = if c.s[1] == s0 { R(self.r(s0)) } else { self.arg(c.s[1], &c.c) }; let o = c.t[0].clone(); sys::lib(move || Arr(T::mat(&o, a, b))) }
            "trace" => { let a = self.r(s0); let f = c.f.clone(); sys::lib(move || Arr(T::trace(&f, a, n[0] as isize, n[1] as isize, n[2] as isize))) }
            "eq" => { let (a, b) = (self.r(s0), self.r(c.s[1])); let f = c.f.clone(); sys::lib(move || Bool(match f.as_str() { "vv" => *a == *b, "rr" => a == b, "rv" => a == *b, "vr" => *a == b, _ => !(*a != *b) })) }
            "debug" => { let a = self.r(s0); sys::lib(move || Text(format!("{:?}", a))) }
            "new" => { let t = self.tree(&c.x); let f = c.f.clone(); let t = &t; sys::lib(move || Arr(T::new_nested(&f, t))) }
            "full" if via(c) => { let v = self.val(c.v[0]); let f = c.f.clone(); sys::lib(move || Arr(T::tctor(match f.as_str() { "zeros" => TC::Zeros(un), "ones" => TC::Ones(un), "scalar" => TC::Scalar(v), _ => TC::Full(v, un) }))) }
            "full" => { let v = self.val(c.v[0]); let f = c.f.clone(); sys::lib(move || Arr(match f.as_str() {
                "zeros" => T::zeros(un), "ones" => T::ones(un), "scalar" => NdArray::scalar(v), "usize" => NdArray::full(v, un[0]), "arr2" => NdArray::full(v, [un[0], un[1]]), _ => NdArray::full(v, un) })) }
            "arange" => {
                // n = start, stop, step, scale; base in t[0]
                let base: i128 = c.t[0].parse().unwrap(); let k = n[3].abs();
                let mk = move |x: i64| if k == 1 { T::big(base + x as i128) } else { T::frac(x, k) };
                let (a, b) = (mk(n[0]), mk(n[1])); let st = if k == 1 { T::big(n[2] as i128) } else { T::frac(n[2], k) };
                let one = c.f == "one"; let st = if one { std::option::Option::None } else { Some(st) }; if via(c) { sys::lib(move || Arr(T::tctor(TC::Arange(a, b, st)))) } else { sys::lib(move || Arr(T::arange(a, b, st))) }
            }
            "linspace" => { let (a, b) = (T::of(n[0]), T::of(n[1])); if via(c) { sys::lib(move || Arr(T::tctor(TC::Lin(a, b, n[2] as usize, n[3] == 1)))) } else { sys::lib(move || Arr(T::linspace(a, b, n[2] as usize, n[3] == 1))) } }
            "drop" => { let a = self.take(s0); sys::lib(move || { drop(a); None }) }
            o => panic!("unknown op {}", o),
        }
    }
    fn m(&mut self, s: i64) -> &'static mut A<T> { unsafe { &mut *(self.slots.get_mut(&s).unwrap().arr.as_mut() as *mut A<T>) } }
    fn tree(&self, x: &[Tok]) -> Tree<T> { Tree::Node(x.iter().map(|t| match t { Tok::V(i) => Tree::Val(self.val(*i)), Tok::N(v) => self.tree(v) }).collect()) }

    /// drop everything, children first, and check that all memory came back
    pub fn finish(&mut self) {
        while !self.poisoned {
            let Some(s) = self.slots.keys().rev().find(|&&s| !self.has_children(s)).copied() else { break };
            let mut c = cmd("drop"); c.s = vec![s]; c.c = vec![s];
            self.exec(&c);
        }
        if self.poisoned { for (_, s) in std::mem::take(&mut self.slots) { std::mem::forget(s); } }
        let live = alloc::finish();
        let errs = alloc::take_errs();
        let leak = if self.poisoned || self.panicked { 0 } else { live };
        let _ = write!(sys::buf(), "{{\"op\":\"end\",\"leak\":{},\"err\":[{}]}}\n", leak,
            if self.poisoned { String::new() } else { errs.iter().map(|&e| format!("\"{}\"", alloc::err_name(e))).collect::<Vec<_>>().join(",") });
    }
}
/// ranges of inexact steps are compared by their values times the number of steps per unit
fn scaled(c: &Cmd) -> bool { c.op == "linspace" || (c.op == "arange" && c.n[3] < 0) }
/// constructed as a tensor and taken out of it again
fn via(c: &Cmd) -> bool { c.t.last().map(|x| x == "tensor").unwrap_or(false) }
fn way(c: &Cmd) -> u32 { c.t.first().and_then(|x| x.parse().ok()).unwrap_or(0) }
/// everything an iterator yields, in order, asked for in one of several ways
fn drain<X, I: Iterator<Item = X>>(mk: impl Fn() -> I, way: u32) -> Vec<X> {
    const M: usize = 150000;
    match way {
        1 => { let mut it = mk(); let mut v = vec![]; while let Some(x) = it.nth(0) { v.push(x); if v.len() >= M { break; } } v }
        2 => { let mut it = mk(); let mut v: Vec<X> = it.by_ref().take(3).collect(); if v.len() == 3 { v.extend(it.take(M)); } v }
        3 => { let mut v = vec![]; let (mut a, mut b) = (mk().take(M).step_by(2), mk().take(M).skip(1).step_by(2));
               loop { let (x, y) = (a.next(), b.next()); let end = y.is_none(); v.extend(x); v.extend(y); if end { break; } } v }
        4 => mk().take(M).fold(vec![], |mut v, x| { v.push(x); v }),
        5 => { let mut v = vec![]; mk().take(M).for_each(|x| v.push(x)); v }
        6 => { let mut v = vec![]; for (x, y) in mk().take(M).zip(mk()) { v.push(if v.len() % 2 == 0 { x } else { y }); } v }
        7 => { let n = mk().take(M).count(); let mut v: Vec<X> = mk().take(n.max(1) - 1).collect(); if n > 0 { v.extend(mk().take(M).last()); } v }
        8 => { let mut v = vec![]; let mut k = 0; while let Some(x) = mk().nth(k) { v.push(x); k += 1; if k >= 200 { v.extend(mk().skip(k).take(M)); break; } } v }
        9 => { let it = mk(); let (lo, hi) = it.size_hint(); let mut v: Vec<X> = it.take(M).collect(); if v.len() < M && (v.len() < lo || hi.map_or(false, |h| v.len() > h)) { v.clear(); } v }
        _ => mk().take(M).collect(),
    }
}
pub const WAYS: usize = 10;

pub fn is_view_op(o: &str) -> bool { ["view", "reshape", "squeeze", "unsqueeze", "T", "transpose", "slice", "slice_along", "diag", "broadcast_to", "einsum_view"].contains(&o) }
pub fn dedup<T: Elem>(v: &mut Vec<T>) { let mut seen = std::collections::HashSet::new(); v.retain(|x| seen.insert(x.key())); }

fn desc_json(d: &Desc, b: i64, off: i64, q: &[i64]) -> String {
    format!("\"out\":\"ok\",\"rk\":\"arr\",\"r\":{{\"b\":{},\"o\":{},\"sh\":{},\"st\":{},\"c\":{},\"u\":{},\"us\":{},\"vw\":{},\"ln\":{},\"sz\":{},\"nd\":{}}},\"q\":{},",
        b, off, jsu(&d.sh), jsu(&d.st), d.c, d.u, d.us, d.vw, d.ln, d.sz, d.nd, js(q))
}
