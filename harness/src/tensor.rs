//! The tensor machine: programs over tensors with automatic differentiation.  After every call all
//! live tensors, their gradients and all arrays obtained from tensors are read again; whatever
//! differs from the last reading is part of the recorded event.
use crate::alloc;
use crate::elem::*;
use crate::rng::Rng;
use crate::sys;
use crate::vm::{cmd, js, jsu, size, Cmd, Out};
use redstone_ml::*;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type Ten<T> = Tensor<'static, T>;
pub trait TElem: Elem + TensorDataType {
    fn tnew(sh: &[usize], v: &[Self]) -> Ten<Self>;
    fn tmk(form: &str, sh: Vec<usize>, v: Self) -> Ten<Self>;
    fn ntimes(a: &A<Self>, b: &A<Self>, op: &str) -> A<Self>;
    fn nscalar(a: &A<Self>, b: Self, op: &str) -> A<Self>;
    fn nneg(a: &A<Self>) -> A<Self>;
    fn nnew(v: Vec<Self>) -> A<Self>;
    fn nmat(a: &A<Self>, b: &A<Self>, op: &str) -> A<Self>;
}
fn nest<T: Clone>(v: &[T], k: usize) -> Vec<Vec<T>> { v.chunks(v.len() / k).map(|c| c.to_vec()).collect() }
macro_rules! impl_telem { ($($t:ident),*) => { $(impl TElem for $t {
    fn tnew(sh: &[usize], v: &[Self]) -> Ten<Self> { match sh.len() {
        0 => Tensor::scalar(v[0]),
        1 => Tensor::new(v.to_vec()),
        2 => Tensor::new(nest(v, sh[0])),
        3 => Tensor::new(nest(v, sh[0]).iter().map(|x| nest(x, sh[1])).collect::<Vec<_>>()),
        4 => Tensor::new(nest(v, sh[0]).iter().map(|x| nest(x, sh[1]).iter().map(|y| nest(y, sh[2])).collect::<Vec<_>>()).collect::<Vec<_>>()),
        _ => Tensor::new(nest(v, sh[0]).iter().map(|x| nest(x, sh[1]).iter().map(|y| nest(y, sh[2]).iter().map(|z| nest(z, sh[3])).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>()),
    } }
    fn tmk(form: &str, sh: Vec<usize>, v: Self) -> Ten<Self> { match form { "zeros" => Tensor::zeros(sh), "ones" => Tensor::ones(sh), _ => Tensor::full(v, sh) } }
    fn ntimes(a: &A<Self>, b: &A<Self>, op: &str) -> A<Self> { match op { "+" => a + b, "-" => a - b, "*" => a * b, _ => a / b } }
    fn nscalar(a: &A<Self>, b: Self, op: &str) -> A<Self> { match op { "+" => a + b, "-" => a - b, "*" => a * b, _ => a / b } }
    fn nneg(a: &A<Self>) -> A<Self> { -a }
    fn nnew(v: Vec<Self>) -> A<Self> { NdArray::new(v) }
    fn nmat(a: &A<Self>, b: &A<Self>, op: &str) -> A<Self> { match op { "dot" => a.dot(b), "matmul" => a.matmul(b), _ => a.bmm(b) } }
})* } }
impl_telem!(f32, f64);

enum TArg<T: TElem> { R(&'static Ten<T>), V(Ten<T>), S(T) }
macro_rules! tforms { ($a:expr, $b:expr, $o:tt) => { match ($a, $b) {
    (TArg::R(x), TArg::R(y)) => x $o y, (TArg::R(x), TArg::V(y)) => x $o y, (TArg::V(x), TArg::R(y)) => x $o y, (TArg::V(x), TArg::V(y)) => x $o y,
    (TArg::R(x), TArg::S(y)) => x $o y, (TArg::V(x), TArg::S(y)) => x $o y, _ => unreachable!() } } }

#[derive(Clone, Copy, Debug)]
pub struct Bd { m: f64, e: i32 }
impl Bd {
    fn add(self, o: Bd) -> Bd { Bd { m: self.m + o.m, e: self.e.max(o.e) } }
    fn mul(self, o: Bd) -> Bd { Bd { m: self.m * o.m, e: self.e + o.e } }
    fn times(self, n: usize) -> Bd { Bd { m: self.m * n as f64, e: self.e } }
}
const ONE: Bd = Bd { m: 1.0, e: 0 };
const POW2: Bd = Bd { m: 4.0, e: 1 };
const INV: Bd = Bd { m: 2.0, e: 2 };

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Obs { sh: Vec<usize>, q: Vec<i64>, rg: bool, lf: bool, hg: bool, gs: Vec<usize>, gq: Vec<i64>, u: bool, vw: bool, bad: bool }

pub enum Val<T: TElem> { T(Box<Ten<T>>), A(Box<A<T>>), Rc(Rc<NdArray<'static, T>>) }
pub struct TSlot<T: TElem> { pub v: Val<T>, parent: i64, node: usize, bd: Bd, pow2: bool, user: bool, o: Obs }
struct Node { acc: bool, ins: Vec<(usize, Bd)>, total: Bd }

enum TRes<T: TElem> { Ten(Ten<T>), Arr(A<T>), Rc(Rc<NdArray<'static, T>>), Seq(Vec<T>), Bool(bool), Text(String), None }

pub struct TVm<T: TElem> { pub slots: BTreeMap<i64, TSlot<T>>, next: i64, nodes: Vec<Node>, pub poisoned: bool, pub panicked: bool, pub events: usize }

fn told<M: StridedMemory>(m: &M) -> (Vec<usize>, Vec<usize>, [usize; 3], [bool; 3], Option<usize>) {
    (m.shape().to_vec(), m.stride().to_vec(), [m.ndims(), m.len(), m.size()], [m.is_contiguous(), m.is_uniformly_strided(), m.is_view()], m.has_uniform_stride())
}
fn read_arr<T: TElem>(a: &A<T>) -> (Vec<usize>, Vec<i64>, bool) {
    let sh = a.shape().to_vec();
    let q: Vec<i64> = a.flatiter().take(5000).map(|x| Elem::res(x)).collect();
    let ok = size(&sh) == q.len();
    (sh, q, ok)
}

impl<T: TElem> TVm<T> {
    pub fn new() -> Self { TVm { slots: BTreeMap::new(), next: 1, nodes: vec![Node { acc: false, ins: vec![], total: ONE }], poisoned: false, panicked: false, events: 0 } }
    pub fn header(&self, id: u64, focus: &str) {
        let _ = write!(sys::buf(), "{{\"op\":\"prog\",\"id\":{},\"dt\":\"{}\",\"md\":\"fp\",\"focus\":\"{}\"}}\n", id, T::NAME, focus);
    }
    fn lim() -> f64 { if T::NAME == "f32" { (2f64).powi(22) } else { (2f64).powi(50) } }
    fn fits(b: Bd) -> bool { b.e <= 40 && b.m * (2f64).powi(b.e) <= Self::lim() }
    fn val(t: i64) -> T { <T as Elem>::of(if t > P / 2 { t - P } else { t }) }
    /// tokens of scalars are residues of small integers or of halves
    fn sval(t: i64) -> T { let h = (P + 1) / 2; for k in -9i64..=9 { if (k * h).rem_euclid(P) == t { return T::frac(k, 2); } } Self::val(t) }

    pub fn is_ten(&self, s: i64) -> bool { matches!(self.slots[&s].v, Val::T(_)) }
    pub fn tens(&self) -> Vec<i64> { self.slots.iter().filter(|(_, x)| matches!(x.v, Val::T(_))).map(|(k, _)| *k).collect() }
    pub fn arrs(&self) -> Vec<i64> { self.slots.iter().filter(|(_, x)| !matches!(x.v, Val::T(_))).map(|(k, _)| *k).collect() }
    pub fn free(&self, s: i64) -> bool { !self.slots.values().any(|x| x.parent == s) }
    pub fn sh(&self, s: i64) -> &Vec<usize> { &self.slots[&s].o.sh }
    fn r(&self, s: i64) -> &'static Ten<T> { match &self.slots[&s].v { Val::T(b) => unsafe { &*(b.as_ref() as *const Ten<T>) }, _ => unreachable!() } }
    fn take(&mut self, s: i64) -> Ten<T> { match self.slots.remove(&s).unwrap().v { Val::T(b) => *b, _ => unreachable!() } }
    fn targ(&mut self, s: i64, c: &[i64]) -> TArg<T> { if c.contains(&s) { TArg::V(self.take(s)) } else { TArg::R(self.r(s)) } }

    fn observe(&self, s: i64) -> Obs {
        let mut o = Obs::default();
        let x = &self.slots[&s];
        let r = catch_unwind(AssertUnwindSafe(|| match &x.v {
            Val::T(t) => {
                let (sh, q, ok) = read_arr(t.ndarray());
                o.bad = !ok || sh != t.shape() || t.ndarray().stride() != t.stride();
                o.sh = sh; o.q = q; o.rg = t.requires_grad(); o.lf = t.is_leaf(); o.u = t.is_uniformly_strided(); o.vw = t.is_view();
                o.bad |= told(t.as_ref()) != told(t.ndarray()) || told(&t.as_ref()) != told(t.ndarray());
                let t: &'static Ten<T> = unsafe { &*(t.as_ref() as *const Ten<T>) };
                if let Some(g) = t.gradient() { let (gs, mut gq, ok) = read_arr(&g);
                    for (x, y) in gq.iter_mut().zip(g.flatiter()) { if !y.f().is_finite() { *x = -1; } } // not a number the model computes with
                    o.hg = true; o.gs = gs; o.gq = gq; o.bad |= !ok; }
            }
            Val::A(a) => { let (sh, q, ok) = read_arr(a); o.sh = sh; o.q = q; o.bad = !ok; o.u = a.is_uniformly_strided(); o.vw = a.is_view(); }
            Val::Rc(a) => { let (sh, q, ok) = read_arr(a); o.sh = sh; o.q = q; o.bad = !ok; o.u = a.is_uniformly_strided(); o.vw = a.is_view(); }
        }));
        if r.is_err() { o.bad = true; }
        o
    }

    // ---- a-priori bounds: every value a program computes is exactly representable
    fn node(&mut self, ins: Vec<(usize, Bd)>) -> usize { self.nodes.push(Node { acc: false, ins, total: Bd { m: 0.0, e: 0 } }); self.nodes.len() - 1 }
    /// bound of the result and the bounds of the factors by which gradients are multiplied
    fn bound(&self, c: &Cmd) -> Option<(Bd, Vec<(usize, Bd)>, bool)> {
        let s: Vec<&TSlot<T>> = c.s.iter().map(|k| &self.slots[k]).collect();
        Some(match c.op.as_str() {
            "tneg" | "tview" => (s[0].bd, vec![(s[0].node, ONE)], c.op == "tview" && s[0].pow2),
            "tbin" if s.len() == 1 => {
                let v = Self::sval(c.v[0]).f().abs(); let b = Bd { m: v, e: if v.fract() == 0.0 { 0 } else { 1 } }; let inv = if v == 1.0 { ONE } else { INV };
                match c.t[0].as_str() { "+" | "-" => (s[0].bd.add(b), vec![(s[0].node, ONE)], false), "*" => (s[0].bd.mul(b), vec![(s[0].node, b)], false), _ => (s[0].bd.mul(inv), vec![(s[0].node, inv)], false) }
            }
            "tbin" => {
                let (a, b) = (s[0], s[1]);
                let n = size(&bshape(&a.o.sh, &b.o.sh)?);
                let (ra, rb) = (n / size(&a.o.sh).max(1), n / size(&b.o.sh).max(1));
                match c.t[0].as_str() {
                    "+" | "-" => (a.bd.add(b.bd), vec![(a.node, ONE.times(ra)), (b.node, ONE.times(rb))], false),
                    "*" => (a.bd.mul(b.bd), vec![(a.node, b.bd.times(ra)), (b.node, a.bd.times(rb))], false),
                    _ => (a.bd.mul(INV), vec![(a.node, INV.times(ra)), (b.node, a.bd.mul(INV).mul(INV).times(rb))], false),
                }
            }
            "tmat" => {
                let (a, b) = (s[0], s[1]);
                let k = *a.o.sh.iter().chain(&b.o.sh).max().unwrap_or(&1);
                (a.bd.mul(b.bd).times(k), vec![(a.node, b.bd.times(k)), (b.node, a.bd.times(k))], false)
            }
            _ => return None,
        })
    }
    /// whether a command stays exact
    pub fn exact(&self, c: &Cmd) -> bool {
        match self.bound(c) { None => true, Some((b, ins, _)) => Self::fits(b) && ins.iter().all(|x| Self::fits(x.1)) }
    }
    /// bounds of what back-propagating from s adds to every node; None if not exact
    fn back_bounds(&self, s: i64, seed: Bd) -> Option<Vec<(usize, Bd)>> {
        let mut pend: BTreeMap<usize, Bd> = BTreeMap::new();
        let mut acc = vec![];
        let n0 = self.slots[&s].node;
        if n0 == 0 { return Some(acc); }
        pend.insert(n0, seed);
        while let Some((&k, &g)) = pend.iter().next_back() {
            pend.remove(&k);
            if !Self::fits(g) { return None; }
            if self.nodes[k].acc { if !Self::fits(self.nodes[k].total.add(g)) { return None; } acc.push((k, g)); continue; }
            for &(i, f) in &self.nodes[k].ins { if i != 0 { let x = g.mul(f); let y = pend.get(&i).map(|o| o.add(x)).unwrap_or(x); if !Self::fits(y) { return None; } pend.insert(i, y); } }
        }
        Some(acc)
    }
    pub fn can_back(&self, s: i64, seed: i64) -> bool { self.back_bounds(s, Bd { m: seed as f64, e: 0 }).is_some() }
    pub fn grad_bound(&self, s: i64) -> Option<Bd> { let x = &self.slots[&s]; if x.node != 0 && self.nodes[x.node].acc { Some(self.nodes[x.node].total) } else { None } }
    pub fn can_back_with(&self, s: i64, g: i64) -> bool { match self.grad_bound(g) { Some(b) => self.back_bounds(s, b).is_some(), None => false } }
    pub fn is_pow2(&self, s: i64) -> bool { self.slots[&s].pow2 }

    pub fn exec(&mut self, c: &Cmd) -> Out {
        let mut c = c.clone();
        if c.d == -1 { c.d = self.next; }
        let c = &c;
        *sys::pending() = format!("{{\"op\":\"{}\",\"s\":{},\"c\":{},\"d\":{},\"n\":{},\"f\":\"{}\",\"v\":{},\"t\":[{}],\"obs\":[],\"rf\":false,", c.op, js(&c.s), js(&c.c), c.d, js(&c.n), c.f, js(&c.v),
            c.t.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","));
        let bound = self.bound(c);
        let parent = if !c.s.is_empty() && c.op == "tview" { if c.c.is_empty() { c.s[0] } else { 0 } } else { 0 };
        let refs = self.refs(c);
        let seedb = if c.op == "tback" { Some(match c.f.as_str() { "1" | "N" => ONE, "G" => self.grad_bound(c.s[1]).unwrap_or(ONE), _ => Bd { m: c.v.iter().map(|&x| Self::val(x).f().abs()).fold(1.0, f64::max), e: 0 } }) } else { None };
        let backs = seedb.map(|b| self.back_bounds(c.s[0], b));
        let res = self.call(c);
        let out = if res.is_some() { Out::Ok } else { Out::Panic };
        if out == Out::Panic { self.panicked = true; }
        let mut tail = format!("\"out\":\"{}\",", if out == Out::Ok { "ok" } else { "panic" });
        let user = c.op == "tnew";
        let mut put: Option<Val<T>> = None;
        let mut isten = false;
        match res {
            Some(TRes::Ten(t)) => { tail.push_str("\"rk\":\"ten\","); put = Some(Val::T(Box::new(t))); isten = true; }
            Some(TRes::Arr(a)) => { tail.push_str("\"rk\":\"arr\","); put = Some(Val::A(Box::new(a))); }
            Some(TRes::Rc(a)) => { tail.push_str("\"rk\":\"arr\","); put = Some(Val::Rc(a)); }
            Some(TRes::Seq(v)) => { let q: Vec<i64> = v.iter().map(|&x| Elem::res(x)).collect(); let _ = write!(tail, "\"rk\":\"seq\",\"q\":{},", js(&q)); }
            Some(TRes::Text(s)) => {
                let mut q = vec![]; let mut cur = String::new();
                for ch in s.chars().chain(" ".chars()) {
                    if ch == '[' || ch == ']' || ch == ',' || ch.is_whitespace() {
                        if !cur.is_empty() { q.push(match <T as Elem>::parse(&cur) { Some(v) => Elem::res(v), None => -9 }); cur.clear(); }
                        if ch == '[' { q.push(-1) } else if ch == ']' { q.push(-2) }
                    } else { cur.push(ch); }
                }
                let _ = write!(tail, "\"rk\":\"seq\",\"q\":{},", js(&q));
            }
            Some(TRes::Bool(b)) => { let _ = write!(tail, "\"rk\":\"bool\",\"b\":{},", b); }
            _ => tail.push_str("\"rk\":\"none\","),
        }
        let mut rf = out == Out::Panic && !refs.is_empty() && refs.iter().any(|x| x.is_none());
        if let Some(v) = put {
            let (bd, ins, pow2) = match (&bound, c.op.as_str()) {
                (Some(b), _) => b.clone(),
                (None, "tnew") => { let p2 = c.t.first().map(|x| x == "p2").unwrap_or(false); (if p2 { POW2 } else { Bd { m: c.v.iter().map(|&x| Self::sval(x).f().abs()).fold(1.0, f64::max), e: 1 } }, vec![], p2) }
                _ => (Bd { m: 1.0, e: 0 }, vec![], false),
            };
            self.slots.insert(c.d, TSlot { v, parent, node: 0, bd, pow2, user, o: Obs { bad: true, ..Default::default() } });
            if isten {
                let rg = catch_unwind(AssertUnwindSafe(|| self.r(c.d).requires_grad())).unwrap_or(false);
                if rg { let n = self.node(ins); self.slots.get_mut(&c.d).unwrap().node = n; }
            }
            self.next = self.next.max(c.d + 1);
        }
        if out == Out::Ok {
            match c.op.as_str() {
                "trg" => {
                    let on = c.n[0] == 1; let was = self.slots[&c.s[0]].o.rg;
                    if on && !was { let n = self.node(vec![]); self.nodes[n].acc = true; self.slots.get_mut(&c.s[0]).unwrap().node = n; }
                    if !on { self.slots.get_mut(&c.s[0]).unwrap().node = 0; }
                }
                "tback" if c.f == "N" => if let Some(Some(b)) = backs { for (k, _) in b { self.nodes[k].total = Bd { m: 1e300, e: 0 }; } },
                "tback" => if let Some(Some(b)) = backs { for (k, g) in b { let t = self.nodes[k].total.add(g); self.nodes[k].total = t; } },
                "tzero" => { let n = self.slots[&c.s[0]].node; self.nodes[n].total = Bd { m: 0.0, e: 0 }; }
                _ => {}
            }
        }
        // read everything again
        let mut obs = String::new();
        let keys: Vec<i64> = self.slots.keys().copied().collect();
        for k in keys {
            let o = self.observe(k);
            let x = self.slots.get_mut(&k).unwrap();
            if o != x.o {
                if !obs.is_empty() { obs.push(','); }
                if o.bad { self.poisoned = true; }
                let _ = write!(obs, "{{\"s\":{},\"sh\":{},\"q\":{},\"rg\":{},\"lf\":{},\"hg\":{},\"gs\":{},\"gq\":{},\"u\":{},\"vw\":{},\"bad\":{}}}", k, jsu(&o.sh), js(&o.q), o.rg, o.lf, o.hg, jsu(&o.gs), js(&o.gq), o.u, o.vw, o.bad);
                x.o = o;
            }
        }
        if let Some(x) = self.slots.get(&c.d) { if out == Out::Ok { rf |= refs.iter().flatten().any(|(sh, q)| *sh == x.o.sh && *q == x.o.q); } }
        alloc::scan_live();
        let errs = alloc::take_errs();
        if !errs.is_empty() { self.poisoned = true; }
        sys::pending().clear();
        let _ = write!(sys::buf(), "{{\"op\":\"{}\",\"s\":{},\"c\":{},\"d\":{},\"n\":{},\"f\":\"{}\",\"v\":{},\"t\":[{}],{}\"obs\":[{}],\"rf\":{},\"err\":[{}]}}\n", c.op, js(&c.s), js(&c.c), c.d, js(&c.n), c.f, js(&c.v),
            c.t.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","), tail, obs, rf, errs.iter().map(|&e| format!("\"{}\"", alloc::err_name(e))).collect::<Vec<_>>().join(","));
        self.events += 1;
        out
    }

    /// what the corresponding array operation gives on the operands themselves and on copies of them
    fn refs(&self, c: &Cmd) -> Vec<Option<(Vec<usize>, Vec<i64>)>> {
        if !["tbin", "tneg", "tmat", "tview"].contains(&c.op.as_str()) { return vec![]; }
        let mut out = vec![];
        for copy in [false, true] {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let d: Vec<A<T>> = if copy { c.s.iter().map(|&s| self.r(s).detach()).collect() } else { vec![] };
                let a: Vec<&'static A<T>> = if copy { d.iter().map(|x| unsafe { &*(x as *const A<T>) }).collect() } else { c.s.iter().map(|&s| self.r(s).ndarray()).collect() };
                let n = &c.n;
                let y = match c.op.as_str() {
                    "tneg" => T::nneg(a[0]),
                    "tmat" => T::nmat(a[0], a[1], &c.t[0]),
                    "tbin" if a.len() == 1 => T::nscalar(a[0], Self::sval(c.v[0]), &c.t[0]),
                    "tbin" => T::ntimes(a[0], a[1], &c.t[0]),
                    _ => match c.t[0].as_str() { "view" => a[0].view(), "reshape" => a[0].reshape(n.iter().map(|&x| x as usize).collect::<Vec<_>>()), "squeeze" => a[0].squeeze(),
                        "unsqueeze" => a[0].unsqueeze(n[0] as isize), "T" => a[0].T(), _ => a[0].transpose(n[0] as isize, n[1] as isize) },
                };
                let (sh, q, _) = read_arr(&y);
                (sh, q)
            }));
            out.push(r.ok());
        }
        out
    }

    fn call(&mut self, c: &Cmd) -> Option<TRes<T>> {
        use TRes::*;
        let s0 = c.s.first().copied().unwrap_or(0);
        let n = c.n.clone();
        let un: Vec<usize> = n.iter().map(|&x| x as usize).collect();
        let consume = c.c.contains(&s0);
        macro_rules! viewop { ($m:ident ( $($a:expr),* )) => {
            if consume { let a = self.take(s0); sys::lib(move || Ten(a.$m($($a),*))) } else { let a = self.r(s0); sys::lib(move || Ten(a.$m($($a),*))) } } }
        match c.op.as_str() {
            "tnew" => {
                let v: Vec<T> = c.v.iter().map(|&t| Self::sval(t)).collect(); let f = c.f.clone();
                sys::lib(|| Ten(if f == "new" { T::tnew(&un, &v) } else { T::tmk(&f, un.clone(), v[0]) }))
            }
            "trg" => { let on = n[0] == 1; let t: &'static mut crate::tensor::Ten<T> = match &mut self.slots.get_mut(&s0).unwrap().v { Val::T(b) => unsafe { &mut *(b.as_mut() as *mut crate::tensor::Ten<T>) }, _ => unreachable!() };
                       sys::lib(move || { t.set_requires_grad(on); None }) }
            "tneg" => { let a = self.targ(s0, &c.c); sys::lib(move || Ten(match a { TArg::R(x) => -x, TArg::V(x) => -x, _ => unreachable!() })) }
            "tbin" => {
                let a = self.targ(s0, &c.c);
                let b = if c.s.len() == 1 { TArg::S(Self::sval(c.v[0])) } else if c.s[1] == s0 { TArg::R(self.r(s0)) } else { self.targ(c.s[1], &c.c) };
                let o = c.t[0].clone();
                sys::lib(move || Ten(match o.as_str() { "+" => tforms!(a, b, +), "-" => tforms!(a, b, -), "*" => tforms!(a, b, *), _ => tforms!(a, b, /) }))
            }
            "tmat" => {
                let a = self.r(s0);
                let b = if c.s[1] == s0 { TArg::R(self.r(s0)) } else { self.targ(c.s[1], &c.c) };
                let o = c.t[0].clone();
                sys::lib(move || Ten(match (o.as_str(), b) { ("dot", TArg::R(b)) => a.dot(b), ("dot", TArg::V(b)) => a.dot(b), ("matmul", TArg::R(b)) => a.matmul(b), ("matmul", TArg::V(b)) => a.matmul(b),
                    ("bmm", TArg::R(b)) => a.bmm(b), ("bmm", TArg::V(b)) => a.bmm(b), _ => unreachable!() }))
            }
            "tview" => match c.t[0].as_str() {
                "view" => viewop!(view()), "reshape" => viewop!(reshape(un)), "squeeze" => viewop!(squeeze()), "unsqueeze" => viewop!(unsqueeze(n[0] as isize)), "T" => viewop!(T()),
                _ => if c.f == "axis" { viewop!(transpose(Axis(n[0] as isize), Axis(n[1] as isize))) } else { viewop!(transpose(n[0] as isize, n[1] as isize)) },
            },
            "tback" => {
                let t = self.r(s0);
                match c.f.as_str() {
                    "1" => sys::lib(move || { t.backward(); None }),
                    "G" => { let u = self.r(c.s[1]); sys::lib(move || { let g = u.gradient().expect("no gradient"); t.backward_with(&g); None }) }
                    "N" => { let v: T = Elem::parse(&c.t[0]).unwrap(); sys::lib(move || { t.backward_with(NdArray::full(v, un)); None }) }
                    f => {
                        // the incoming gradient in several memory layouts
                        let v: Vec<T> = c.v.iter().map(|&x| Self::val(x)).collect();
                        let layout = f.to_string();
                        sys::lib(move || {
                            let base: A<T> = T::nnew(v.clone());
                            let nd = un.len();
                            match layout.as_str() {
                                "t" if nd >= 2 => {
                                    // stored transposed
                                    let mut sh = un.clone(); sh.swap(0, nd - 1);
                                    let a = base.reshape(un.clone());
                                    let b = (&a).transpose(0, nd as isize - 1).flatten();
                                    let b = b.reshape(sh);
                                    t.backward_with((&b).transpose(0, nd as isize - 1));
                                }
                                "b" if v.iter().all(|x| *x == v[0]) => { let a: A<T> = NdArray::scalar(v[0]); t.backward_with(a.broadcast_to(&un)); }
                                "s" if nd >= 1 => {
                                    // every second element along the last axis of a larger array
                                    let mut sh = un.clone(); sh.push(2);
                                    let w: Vec<T> = v.iter().flat_map(|&x| [x, Elem::of(7)]).collect();
                                    let a: A<T> = T::nnew(w).reshape(sh);
                                    let g = (&a).slice_along(Axis(-1), 0);
                                    t.backward_with(&g);
                                }
                                _ => t.backward_with(base.reshape(un.clone())),
                            }
                            None
                        })
                    }
                }
            }
            "tzero" => { let t = self.r(s0); sys::lib(move || { t.zero_gradient(); None }) }
            "tdrop" => { let x = self.slots.remove(&s0).unwrap(); sys::lib(move || { drop(x.v); None }) }
            "tval" => { let t = self.r(s0); sys::lib(move || Seq(vec![t.value()])) }
            "tdbg" => { let t = self.r(s0); sys::lib(move || TRes::Text(format!("{:?}", t))) }
            "tdet" => { let t = self.r(s0); sys::lib(move || Arr(t.detach())) }
            "tinto" => { let t = self.take(s0); sys::lib(move || Arr(t.into_ndarray())) }
            "tget" => { let t = self.r(s0); sys::lib(move || TRes::Rc(t.get_ndarray())) }
            "tafill" => { let v = Self::val(c.v[0]); match &mut self.slots.get_mut(&s0).unwrap().v { Val::A(a) => { let a: &'static mut A<T> = unsafe { &mut *(a.as_mut() as *mut A<T>) }; sys::lib(move || { a.fill(v); None }) }
                Val::Rc(a) => { let a: &'static mut NdArray<'static, T> = unsafe { &mut *(std::rc::Rc::get_mut(a).unwrap() as *mut _) }; sys::lib(move || { a.fill(v); None }) } _ => unreachable!() } }
            "teq" => { let (a, b) = (self.r(s0), self.r(c.s[1])); let f = c.f.clone(); sys::lib(move || TRes::Bool(match f.as_str() {
                "tt" => *a == *b, "ta" => *a == *b.ndarray(), "at" => *a.ndarray() == *b, "art" => *a.ndarray() == b, _ => a.ndarray() == *b })) }
            o => panic!("unknown op {}", o),
        }
    }
    pub fn can_fill(&self, s: i64) -> bool { match &self.slots[&s].v { Val::A(a) => !a.is_view(), Val::Rc(a) => Rc::strong_count(a) == 1 && !a.is_view(), _ => false } }

    pub fn finish(&mut self, rev: bool) {
        *sys::pending() = String::from("{\"op\":\"tfin\",\"s\":[],\"c\":[],\"d\":0,\"n\":[],\"f\":\"\",\"v\":[],\"t\":[],\"obs\":[],\"rf\":false,");
        while !self.poisoned {
            let free = |s: &&i64| self.free(**s);
            let k = if rev { self.slots.keys().rev().find(free).copied() } else { self.slots.keys().find(free).copied() };
            let Some(s) = k else { break };
            let x = self.slots.remove(&s).unwrap();
            sys::lib(move || drop(x.v));
        }
        if self.poisoned { for (_, s) in std::mem::take(&mut self.slots) { std::mem::forget(s); } }
        sys::pending().clear();
        let live = alloc::finish();
        let errs = alloc::take_errs();
        let leak = if self.poisoned || self.panicked { 0 } else { live };
        let _ = write!(sys::buf(), "{{\"op\":\"end\",\"leak\":{},\"err\":[{}]}}\n", leak,
            if self.poisoned { String::new() } else { errs.iter().map(|&e| format!("\"{}\"", alloc::err_name(e))).collect::<Vec<_>>().join(",") });
    }
}

pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let at = |s: &[usize], i: usize| { let k = n - s.len(); if i < k { 1 } else { s[i - k] } };
    (0..n).map(|i| { let (x, y) = (at(a, i), at(b, i)); if x == y || y == 1 { Some(x) } else if x == 1 { Some(y) } else { None } }).collect()
}

// ------------------------------------------------------------------ random programs
pub struct TGen<T: TElem> { pub vm: TVm<T>, pub r: Rng, pub bad: u32, pub dims: Vec<usize>, pub maxel: usize, pub consume: u32, pub nonfinite: u32 }

impl<T: TElem> TGen<T> {
    pub fn shape(&mut self) -> Vec<usize> {
        loop {
            let nd = [0, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5][self.r.below(11)];
            let s: Vec<usize> = (0..nd).map(|_| if self.r.chance(15) { 1 } else { *self.r.pick(&self.dims) }).collect();
            if size(&s) <= self.maxel { return s; }
        }
    }
    pub fn newt(&mut self, sh: &[usize], p2: bool) -> i64 {
        let sh = &sh[sh.len().saturating_sub(5)..]; // literals are nested up to five deep
        let mut c = cmd("tnew");
        c.n = sh.iter().map(|&x| x as i64).collect(); c.d = -1; c.f = "new".into();
        let n = size(sh);
        let h = (P + 1) / 2;
        if p2 { c.t = vec!["p2".into()]; c.v = (0..n).map(|_| match self.r.below(8) { 0 => P - 1, 1 | 2 => 2, 3 => P - 2, 4 => 4, 5 => h, _ => 1 }).collect(); }
        else if self.r.chance(8) { c.f = (*self.r.pick(&["full", "zeros", "ones"])).into(); let x = match c.f.as_str() { "zeros" => 0, "ones" => 1, _ => self.r.range(-4, 4) }; c.v = vec![x.rem_euclid(P); n]; }
        else { c.v = (0..n).map(|_| self.r.range(-4, 4).rem_euclid(P)).collect(); }
        let d = self.vm.next_slot();
        self.vm.exec(&c);
        if self.r.chance(60) && !self.vm.poisoned && self.vm.slots.contains_key(&d) { self.rg(d, true); }
        d
    }
    fn rg(&mut self, s: i64, on: bool) { let mut c = cmd("trg"); c.s = vec![s]; c.n = vec![on as i64]; self.vm.exec(&c); }
    fn pick(&mut self) -> Option<i64> { let v = self.vm.tens(); if v.is_empty() { None } else if self.r.chance(45) { v.last().copied() } else { Some(*self.r.pick(&v)) } }
    fn cons(&mut self, s: i64) -> bool { let p = self.consume; self.vm.free(s) && self.r.chance(p) }

    pub fn act_bin(&mut self) -> Option<()> {
        let a = self.pick()?;
        let o = *self.r.pick(&["+", "-", "*", "*", "/"]);
        let mut c = cmd("tbin"); c.t = vec![o.into()]; c.d = -1;
        let ash = self.vm.sh(a).clone();
        if self.r.chance(25) {
            c.s = vec![a];
            let h = (P + 1) / 2;
            c.v = vec![if o == "/" { *self.r.pick(&[1, 2, 4, h, P - 1, P - 2, P - h]) } else { *self.r.pick(&[0, 1, 2, 3, P - 1, P - 2, h, 3 * h % P, 4]) }];
        } else {
            let bad = self.r.chance(self.bad);
            let b = if bad { self.pick()? } else {
                let cand: Vec<i64> = self.vm.tens().into_iter().filter(|&s| bshape(&ash, self.vm.sh(s)).map(|x| size(&x) <= 4 * self.maxel).unwrap_or(false) && (o != "/" || self.vm.is_pow2(s))).collect();
                if cand.is_empty() || self.r.chance(35) {
                    // a shape derived from the other operand's
                    let mut sh = ash.clone();
                    for x in sh.iter_mut() { if self.r.chance(30) { *x = 1; } }
                    if self.r.chance(30) && !sh.is_empty() { let k = 1 + self.r.below(sh.len()); sh.drain(..k); }
                    if self.r.chance(15) && sh.len() < 5 { sh.insert(0, *self.r.pick(&self.dims)); }
                    for (i, x) in sh.iter_mut().enumerate().rev() { let _ = i; if *x == 1 && self.r.chance(20) { *x = *self.r.pick(&self.dims); } }
                    match bshape(&ash, &sh) { Some(x) if size(&x) <= 4 * self.maxel => {} _ => sh = ash.clone() }
                    self.newt(&sh, o == "/")
                } else { *self.r.pick(&cand) }
            };
            if !self.vm.slots.contains_key(&b) || self.vm.poisoned { return None; }
            if o == "/" && !self.vm.is_pow2(b) { return None; }
            c.s = if o != "/" && self.r.chance(40) { vec![b, a] } else { vec![a, b] };
        }
        if c.s.len() == 2 && c.s[0] != c.s[1] { for s in c.s.clone() { if self.cons(s) { c.c.push(s); } } }
        else if c.s.len() == 1 && self.cons(a) { c.c.push(a); }
        if !self.vm.exact(&c) { return None; }
        self.vm.exec(&c); Some(())
    }
    pub fn act_neg(&mut self) -> Option<()> { let a = self.pick()?; let mut c = cmd("tneg"); c.s = vec![a]; c.d = -1; if self.cons(a) { c.c = vec![a]; } self.vm.exec(&c); Some(()) }
    pub fn act_mat(&mut self) -> Option<()> {
        let o = *self.r.pick(&["dot", "matmul", "matmul", "matmul", "bmm"]);
        let bad = self.r.chance(self.bad);
        let want = |vm: &TVm<T>, s: i64, k: usize| vm.sh(s).len() == k;
        let d = |g: &mut Self| *g.r.pick(&g.dims.clone());
        let (nda, ndb) = match o { "dot" => (1, 1), "matmul" => *self.r.pick(&[(2, 2), (2, 2), (2, 1), (1, 1)]), _ => (3, 3) };
        let ca: Vec<i64> = self.vm.tens().into_iter().filter(|&s| bad || want(&self.vm, s, nda)).collect();
        let a = if ca.is_empty() || self.r.chance(25) { let sh: Vec<usize> = (0..nda).map(|_| d(self)).collect(); self.newt(&sh, false) } else { *self.r.pick(&ca) };
        if self.vm.poisoned || !self.vm.slots.contains_key(&a) { return None; }
        let ash = self.vm.sh(a).clone();
        let fits = |b: &[usize]| b.len() == ndb && match o { "dot" => b[0] == ash[0], "bmm" => b[0] == ash[0] && b[1] == ash[2], _ => b[0] == ash[nda - 1] };
        let cb: Vec<i64> = self.vm.tens().into_iter().filter(|&s| bad || fits(self.vm.sh(s))).collect();
        let b = if cb.is_empty() || (!bad && self.r.chance(30)) {
            let sh: Vec<usize> = match (o, ndb) { ("bmm", _) => vec![ash[0], ash[2], d(self)], (_, 1) => vec![*ash.last().unwrap_or(&2)], _ => vec![ash[1], d(self)] };
            self.newt(&sh, false)
        } else { *self.r.pick(&cb) };
        if self.vm.poisoned || !self.vm.slots.contains_key(&b) { return None; }
        let mut c = cmd("tmat"); c.t = vec![o.into()]; c.s = vec![a, b]; c.d = -1;
        if a != b && self.cons(b) { c.c = vec![b]; }
        if !self.vm.exact(&c) { return None; }
        self.vm.exec(&c); Some(())
    }
    pub fn act_view(&mut self) -> Option<()> {
        let a = self.pick()?;
        let sh = self.vm.sh(a).clone();
        let nd = sh.len() as i64;
        let bad = self.r.chance(self.bad);
        let mut c = cmd("tview"); c.s = vec![a]; c.d = -1;
        let o = *self.r.pick(&["view", "reshape", "reshape", "reshape", "squeeze", "unsqueeze", "T", "T", "transpose", "transpose"]);
        match o {
            "reshape" => {
                let n = size(&sh);
                let mut f = vec![]; let mut m = n;
                while m > 1 { let p = (2..=m).find(|p| m % p == 0).unwrap(); f.push(p); m /= p; }
                self.r.shuffle(&mut f);
                let mut ns: Vec<i64> = vec![];
                for p in f { if !ns.is_empty() && self.r.chance(50) { let k = self.r.below(ns.len()); ns[k] *= p as i64; } else { ns.push(p as i64); } }
                while self.r.chance(25) && ns.len() < 8 { let k = self.r.below(ns.len() + 1); ns.insert(k, 1); }
                if self.r.chance(10) { ns = sh.iter().map(|&x| x as i64).collect(); }
                if bad { if ns.is_empty() { ns.push(2); } else { let k = self.r.below(ns.len()); ns[k] += 1; } }
                c.n = ns;
            }
            "unsqueeze" => { if nd >= 8 { return None; } c.n = vec![if bad { *self.r.pick(&[nd + 1, -nd - 2]) } else { self.r.range(-nd - 1, nd) }]; }
            "transpose" => { if nd == 0 && !bad { return None; } c.n = if nd == 0 || bad { vec![0, nd] } else { vec![self.r.range(-nd, nd - 1), self.r.range(-nd, nd - 1)] }; if self.r.chance(30) { c.f = "axis".into(); } }
            "T" => if nd < 2 && !bad { return None; },
            _ => {}
        }
        c.t = vec![o.into()];
        if self.cons(a) { c.c = vec![a]; }
        self.vm.exec(&c); Some(())
    }
    pub fn act_back(&mut self) -> Option<()> {
        let v: Vec<i64> = self.vm.tens().into_iter().filter(|&s| self.r_rg(s)).collect();
        let s = if v.is_empty() || self.r.chance(5) { self.pick()? } else if self.r.chance(60) { *v.last().unwrap() } else { *self.r.pick(&v) };
        let mut c = cmd("tback"); c.s = vec![s];
        let sh = self.vm.sh(s).clone();
        let nf = self.nonfinite; let k = self.r.below(10);
        match k {
            _ if self.r.chance(nf) => {
                if !self.vm.can_back(s, 1) { return None; }
                c.f = "N".into(); c.t = vec![(*self.r.pick(&["inf", "-inf", "NaN"])).into()];
                c.n = sh.iter().map(|&x| x as i64).collect();
            }
            0..=3 => { c.f = "1".into(); if !self.vm.can_back(s, 1) { return None; } }
            4 => {
                let gs: Vec<i64> = self.vm.tens().into_iter().filter(|&g| self.vm.slots[&g].o.hg && *self.vm.sh(g) == sh).collect();
                if gs.is_empty() { return None; }
                let g = *self.r.pick(&gs);
                if !self.vm.can_back_with(s, g) { return None; }
                c.f = "G".into(); c.s = vec![s, g];
            }
            _ => {
                c.f = (*self.r.pick(&["c", "t", "b", "s"])).into();
                let mut sh = sh;
                if self.r.chance(self.bad) {
                    match self.r.below(4) { 0 => sh.push(1), 1 => { if !sh.is_empty() { let k = self.r.below(sh.len()); sh[k] += 1; } else { sh.push(2) } } 2 => { if sh.len() > 0 { sh.remove(0); } else { sh.push(1) } } _ => { if sh.len() > 1 { let l = sh.len() - 1; sh.swap(0, l); } else { sh.insert(0, 1); } } }
                }
                let one = self.r.range(-3, 3);
                c.n = sh.iter().map(|&x| x as i64).collect();
                c.v = (0..size(&sh)).map(|_| if c.f == "b" { one } else { self.r.range(-3, 3) }.rem_euclid(P)).collect();
                if !self.vm.can_back(s, 3) { return None; }
            }
        }
        self.vm.exec(&c); Some(())
    }
    fn r_rg(&self, s: i64) -> bool { self.vm.slots[&s].o.rg }
    pub fn act_mark(&mut self) -> Option<()> {
        let v: Vec<i64> = self.vm.tens().into_iter().filter(|&s| self.vm.free(s)).collect();
        if v.is_empty() { return None; }
        let s = *self.r.pick(&v);
        let on = if self.r.chance(75) { !self.r_rg(s) } else { self.r_rg(s) };
        self.rg(s, on); Some(())
    }
    pub fn act_zero(&mut self) -> Option<()> {
        let v: Vec<i64> = self.vm.tens().into_iter().filter(|&s| self.r_rg(s)).collect();
        if v.is_empty() { return None; }
        let mut c = cmd("tzero"); c.s = vec![*self.r.pick(&v)]; self.vm.exec(&c); Some(())
    }
    pub fn act_drop(&mut self) -> Option<()> {
        let v: Vec<i64> = self.vm.slots.keys().copied().filter(|&s| self.vm.free(s)).collect();
        if v.len() < 2 { return None; }
        let s = *self.r.pick(&v);
        let mut c = cmd("tdrop"); c.s = vec![s]; c.c = vec![s]; self.vm.exec(&c); Some(())
    }
    pub fn act_conv(&mut self) -> Option<()> {
        let s = self.pick()?;
        let o = *self.r.pick(&["tdet", "tinto", "tinto", "tget", "tget"]);
        if o == "tinto" && !self.vm.free(s) { return None; }
        let mut c = cmd(o); c.s = vec![s]; c.d = -1; if o == "tinto" { c.c = vec![s]; }
        self.vm.exec(&c); Some(())
    }
    pub fn act_fill(&mut self) -> Option<()> {
        let v: Vec<i64> = self.vm.arrs().into_iter().filter(|&s| self.vm.can_fill(s)).collect();
        if v.is_empty() { return None; }
        let mut c = cmd("tafill"); c.s = vec![*self.r.pick(&v)]; c.v = vec![self.r.range(5, 9)]; self.vm.exec(&c); Some(())
    }
    pub fn act_val(&mut self) -> Option<()> {
        let s = self.pick()?;
        if size(self.vm.sh(s)) != 1 && !self.r.chance(self.bad) { return None; }
        let mut c = cmd("tval"); c.s = vec![s]; self.vm.exec(&c); Some(())
    }
    pub fn act_eq(&mut self) -> Option<()> {
        let a = self.pick()?; let mut b = self.pick()?;
        match self.r.below(8) {
            0 => { let mut c = cmd("tdbg"); c.s = vec![a]; self.vm.exec(&c); return Some(()); }
            // a tensor with the same elements: through arithmetic, as a view, with another shape
            1 | 2 => { b = self.vm.next_slot(); let mut c = cmd("tbin"); c.s = vec![a]; c.v = vec![1]; c.t = vec!["*".into()]; c.d = b; if !self.vm.exact(&c) { return None; } self.vm.exec(&c); if !self.vm.live(b) { return None; } }
            3 => { b = self.vm.next_slot(); let mut c = cmd("tview"); c.s = vec![a]; c.d = b; c.t = vec!["view".into()]; self.vm.exec(&c); if !self.vm.live(b) { return None; } }
            4 => { let n = size(self.vm.sh(a)) as i64; b = self.vm.next_slot(); let mut c = cmd("tview"); c.s = vec![a]; c.d = b; c.t = vec!["reshape".into()]; c.n = if self.r.chance(50) { vec![n] } else { vec![1, n] }; self.vm.exec(&c); if !self.vm.live(b) { return None; } }
            _ => {}
        }
        let mut c = cmd("teq"); c.s = vec![a, b]; c.f = (*self.r.pick(&["tt", "ta", "at", "art", "rat"])).into(); self.vm.exec(&c); Some(())
    }
    /// a long chain of operations, each on the result of the one before
    pub fn chain(&mut self) {
        let sh = self.shape();
        let mut a = self.newt(&sh, false);
        let h = self.r.range(60, 120);
        for _ in 0..h {
            if !self.vm.live(a) { return; }
            let nd = self.vm.sh(a).len() as i64;
            let d = self.vm.next_slot();
            let mut c = cmd("tbin"); c.s = vec![a]; c.d = d;
            match self.r.below(9) {
                0 => c.op = "tneg".into(),
                1 | 2 => { c.t = vec![(*self.r.pick(&["*", "/"])).into()]; c.v = vec![*self.r.pick(&[1, P - 1])]; }
                3 => { c.op = "tview".into(); c.t = vec!["view".into()]; }
                4 => { c.op = "tview".into(); c.t = vec!["squeeze".into()]; }
                5 if nd < 6 => { c.op = "tview".into(); c.t = vec!["unsqueeze".into()]; c.n = vec![self.r.range(-nd - 1, nd)]; }
                6 if nd >= 1 => { c.op = "tview".into(); c.t = vec!["transpose".into()]; c.n = vec![self.r.range(-nd, nd - 1), self.r.range(-nd, nd - 1)]; }
                _ => { c.t = vec![(*self.r.pick(&["+", "-"])).into()]; c.v = vec![*self.r.pick(&[1, 2, P - 1])]; }
            }
            if self.vm.free(a) && self.r.chance(70) { c.c = vec![a]; }
            if !self.vm.exact(&c) { return; }
            self.vm.exec(&c);
            a = d;
        }
        if self.vm.live(a) && self.vm.can_back(a, 1) { let mut c = cmd("tback"); c.s = vec![a]; c.f = "1".into(); self.vm.exec(&c); }
    }
    pub fn act_new(&mut self) -> Option<()> { let sh = self.shape(); let p = self.r.chance(15); self.newt(&sh, p); Some(()) }
}
impl<T: TElem> TVm<T> { pub fn next_slot(&self) -> i64 { self.next } pub fn live(&self, s: i64) -> bool { !self.poisoned && self.slots.contains_key(&s) } }

/// the same operations on tensors and on arrays of arbitrary floating-point numbers, side by side
fn twin<T: TElem>(focus: &str, id: u64, mut r: Rng) {
    struct P<T: TElem> { t: Option<Box<Ten<T>>>, a: Box<A<T>>, parent: usize }
    TVm::<T>::new().header(id, focus);
    let wild = *r.pick(&[0u8, 1, 1, 2, 3]);
    let pool = <T as Elem>::pool(&mut r, wild, 12);
    let mut ps: Vec<P<T>> = vec![];
    let big = r.chance(5);
    for _ in 0..3 {
        let nd = r.below(4);
        let sh: Vec<usize> = if big { vec![r.range(30, 300) as usize] } else { (0..nd).map(|_| r.range(1, 3) as usize).collect() };
        let v: Vec<T> = (0..size(&sh)).map(|_| *r.pick(&pool)).collect();
        let (sh2, v2) = (sh.clone(), v.clone());
        let made = sys::lib(move || { let mut t = T::tnew(&sh2, &v2); if v2.len() % 2 == 1 { t.set_requires_grad(true); } (Box::new(t), Box::new(T::nnew(v2).reshape(sh2))) });
        if let Some((t, a)) = made { ps.push(P { t: Some(t), a, parent: usize::MAX }); }
    }
    for _ in 0..r.range(4, 12) {
        let live: Vec<usize> = (0..ps.len()).filter(|&i| ps[i].t.is_some()).collect();
        if live.is_empty() || ps.len() > 20 { break; }
        let x = *r.pick(&live);
        let y = if r.chance(35) { x } else { *r.pick(&live) };
        let free = |ps: &Vec<P<T>>, i: usize| !ps.iter().any(|p| p.parent == i && p.t.is_some());
        let nd = ps[x].a.shape().len() as i64;
        let (op, form) = match r.below(12) { 0 => ("neg", "u"), 1 => ("view", "u"), 2 => ("transpose", "u"), 3 => ("unsqueeze", "u"), 4 => ("reshape", "u"), 5..=7 => (*r.pick(&["+", "-", "*", "/"]), "s"), _ => (*r.pick(&["+", "-", "*", "/"]), "b") };
        let n: Vec<i64> = match op { "transpose" if nd > 0 => vec![r.range(0, nd - 1), r.range(-nd, -1)], "transpose" => vec![0, 0], "unsqueeze" => vec![r.range(-nd - 1, nd)], "reshape" => vec![1, size(ps[x].a.shape()) as i64], _ => vec![] };
        let k = *r.pick(&pool);
        let cx = r.chance(30) && x != y && free(&ps, x);
        let cy = form == "b" && r.chance(30) && x != y && free(&ps, y);
        *sys::pending() = format!("{{\"op\":\"twin\",\"s\":[{},{}],\"c\":[],\"d\":0,\"n\":{},\"f\":\"{}\",\"v\":[],\"t\":[\"{}\"],\"obs\":[],\"rf\":false,\"sh\":[],\"q\":[],\"aout\":\"ok\",\"ash\":[],\"aq\":[],", x, y, js(&n), form, op);
        let (ax, ay): (&'static A<T>, &'static A<T>) = unsafe { (&*(ps[x].a.as_ref() as *const A<T>), &*(ps[y].a.as_ref() as *const A<T>)) };
        let ra = sys::lib(|| Box::new(match (op, form) { ("neg", _) => T::nneg(ax), ("view", _) => ax.view(), ("transpose", _) => ax.transpose(n[0] as isize, n[1] as isize), ("unsqueeze", _) => ax.unsqueeze(n[0] as isize),
            ("reshape", _) => ax.reshape([n[0] as usize, n[1] as usize]), (o, "s") => T::nscalar(ax, k, o), (o, _) => T::ntimes(ax, ay, o) }));
        let viewop = form == "u" && op != "neg";
        let arg = |ps: &mut Vec<P<T>>, i: usize, c: bool| if c { TArg::V(*ps[i].t.take().unwrap()) } else { TArg::R(unsafe { &*(ps[i].t.as_ref().unwrap().as_ref() as *const Ten<T>) }) };
        let a = arg(&mut ps, x, cx && !viewop);
        let b = if form == "b" { arg(&mut ps, y, cy) } else { TArg::S(k) };
        let rt = sys::lib(|| Box::new(match (op, a) {
            ("neg", TArg::R(t)) => -t, ("neg", TArg::V(t)) => -t, ("view", TArg::R(t)) => t.view(), ("transpose", TArg::R(t)) => t.transpose(n[0] as isize, n[1] as isize), ("unsqueeze", TArg::R(t)) => t.unsqueeze(n[0] as isize),
            ("reshape", TArg::R(t)) => t.reshape([n[0] as usize, n[1] as usize]),
            ("+", a) => tforms!(a, b, +), ("-", a) => tforms!(a, b, -), ("*", a) => tforms!(a, b, *), (_, a) => tforms!(a, b, /) }));
        let mut ids: std::collections::HashMap<u128, i64> = Default::default();
        let mut toks = |v: Vec<T>| -> Vec<i64> { v.iter().map(|e| { let n = ids.len() as i64 + 1; let key = if e.f() == 0.0 { 0 } else { Elem::key(*e) }; *ids.entry(key).or_insert(n) }).collect() };
        let read = |a: &A<T>| catch_unwind(AssertUnwindSafe(|| (a.shape().to_vec(), a.flatiter().take(5000).collect::<Vec<T>>()))).unwrap_or_default();
        let (ash, aq) = ra.as_ref().map(|a| read(a)).unwrap_or_default();
        let (tsh, tq) = rt.as_ref().map(|t| read(t.ndarray())).unwrap_or_default();
        let (aq, tq) = (toks(aq), toks(tq));
        let errs = alloc::take_errs();
        let pre = format!("{{\"op\":\"twin\",\"s\":[{},{}],\"c\":[],\"d\":0,\"n\":{},\"f\":\"{}\",\"v\":[],\"t\":[\"{}\"],\"obs\":[],\"rf\":false,", x, y, js(&n), form, op);
        sys::pending().clear();
        let _ = write!(sys::buf(), "{}\"out\":\"{}\",\"rk\":\"none\",\"sh\":{},\"q\":{},\"aout\":\"{}\",\"ash\":{},\"aq\":{},\"err\":[{}]}}\n", pre, if rt.is_some() { "ok" } else { "panic" }, jsu(&tsh), js(&tq),
            if ra.is_some() { "ok" } else { "panic" }, jsu(&ash), js(&aq), errs.iter().map(|&e| format!("\"{}\"", alloc::err_name(e))).collect::<Vec<_>>().join(","));
        match (rt, ra) { (Some(t), Some(a)) => ps.push(P { t: Some(t), a, parent: if viewop { x } else { usize::MAX } }), _ => {} }
        if !errs.is_empty() { for p in ps { std::mem::forget(p); } break_out(); return; }
    }
    while let Some(p) = ps.pop() { sys::lib(move || drop(p)); }
    break_out();
}
fn break_out() { alloc::finish(); alloc::take_errs(); let _ = write!(sys::buf(), "{{\"op\":\"end\",\"leak\":0,\"err\":[]}}\n"); sys::flush(); }

pub fn program<T: TElem>(focus: &str, id: u64, mut r: Rng) {
    if focus == "C18" && id % 4 == 2 { return twin::<T>(focus, id, r); }
    let w: Vec<(&str, u32)> = match focus {
        "C11" => vec![("new", 8), ("bin", 34), ("neg", 4), ("mat", 22), ("view", 16), ("back", 22), ("mark", 2), ("zero", 2)],
        "C12" => vec![("new", 8), ("bin", 26), ("neg", 4), ("mat", 8), ("view", 10), ("back", 26), ("mark", 16), ("zero", 14), ("conv", 2), ("drop", 4)],
        "C13" => vec![("new", 6), ("bin", 24), ("neg", 3), ("mat", 16), ("view", 16), ("back", 20), ("mark", 4), ("zero", 3), ("conv", 14), ("drop", 20), ("fill", 8)],
        "C14" => vec![("new", 8), ("bin", 20), ("neg", 4), ("mat", 12), ("view", 18), ("back", 12), ("mark", 6), ("zero", 3), ("conv", 14), ("drop", 18), ("fill", 4), ("val", 2)],
        "C17" => vec![("new", 8), ("bin", 24), ("mat", 20), ("view", 22), ("back", 22), ("mark", 2), ("val", 6)],
        "C16" => vec![("new", 10), ("bin", 10), ("view", 20), ("eq", 50), ("conv", 5)],
        _ => vec![("new", 10), ("bin", 34), ("neg", 6), ("mat", 18), ("view", 30), ("conv", 12), ("val", 5), ("drop", 4), ("mark", 4), ("back", 4), ("fill", 2)],
    };
    if focus == "C14" { alloc::set_mode((id % 3) as usize); }
    let large = r.chance(4);
    let dims: Vec<usize> = if large { vec![5, 9, 17, 2] } else { let mut v: Vec<usize> = (0..2).map(|_| r.range(2, 4) as usize).collect(); if r.chance(30) { v.push(1); } if r.chance(10) { v.push(5); } v };
    let len = if large { 6 } else { r.range(6, 18) as usize };
    let bad = if focus == "C17" { 35 } else { 3 };
    let consume = *r.pick(&[0, 15, 40, 70]);
    let mut g = TGen { vm: TVm::<T>::new(), r, bad, dims, maxel: if large { 320 } else { 27 }, consume, nonfinite: match focus { "C12" => 6, "C13" | "C17" => 1, _ => 0 } };
    g.vm.header(id, focus);
    g.act_new();
    if id % 97 == 13 { g.chain(); }
    let limit = g.vm.events + 45;
    let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
    let (mut tries, mut done) = (0, 0);
    while done < len && tries < 80 && !g.vm.poisoned && g.vm.events < limit {
        tries += 1;
        let before = g.vm.events;
        match w[g.r.weighted(&ws)].0 {
            "new" => g.act_new(), "bin" => g.act_bin(), "neg" => g.act_neg(), "mat" => g.act_mat(), "view" => g.act_view(), "back" => g.act_back(), "mark" => g.act_mark(), "zero" => g.act_zero(),
            "drop" => g.act_drop(), "conv" => g.act_conv(), "fill" => g.act_fill(), "val" => g.act_val(), "eq" => g.act_eq(), _ => None,
        };
        if g.vm.events > before { done += 1; }
    }
    if !g.vm.poisoned && focus != "C17" { for _ in 0..3 { if g.act_back().is_some() { break; } } }
    let rev = g.r.chance(50);
    g.vm.finish(rev);
    sys::flush();
}
