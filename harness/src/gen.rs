//! Random programs over the array machine, biased towards the property under study.
use crate::elem::*;
use crate::rng::Rng;
use crate::vm::*;

pub struct Gen<'a, T: Elem> { pub vm: &'a mut Vm<T>, pub rng: Rng, pub bad: u32, pub large: bool, pub huge: bool, pub giant: bool, pub maxel: usize, pub nd: usize, pub mean: bool, pub ex: u32, pub tiny: bool }

fn factor(rng: &mut Rng, n: usize, maxnd: usize) -> Vec<usize> {
    // a random shape with n elements
    let mut v = vec![];
    let mut m = n;
    let mut p = 2;
    while m > 1 { while m % p == 0 { v.push(p); m /= p; } p += 1; if p * p > m && m > 1 { v.push(m); break; } }
    rng.shuffle(&mut v);
    let k = 1 + rng.below(maxnd.max(1));
    let mut sh = vec![1; k];
    for f in v { let i = rng.below(k); sh[i] *= f; }
    sh
}

impl<'a, T: Elem> Gen<'a, T> {
    pub fn token(&mut self) -> i64 {
        if self.vm.fp {
            let m = T::maxint();
            if self.ex > 0 && self.rng.chance(10) { let k = if self.ex == 1 { -1 } else if self.ex == 2 { -2 } else { -1 - self.rng.below(3) as i64 }; return k; }
            let k: i64 = if self.tiny { self.rng.range(-1, 2) } else if self.ex > 0 && !self.mean { self.rng.range(-2, 2) } else if self.mean && T::KIND == Kind::Float { 2520 * self.rng.range(-3, 3) } else if m < 200.0 { self.rng.range(-2, 2) } else { self.rng.range(-9, 9) };
            let k = if T::KIND == Kind::Uint || T::KIND == Kind::Bool { k.abs() } else { k };
            if T::KIND == Kind::Bool { return k % 2; }
            (k + P) % P
        } else { 1 + self.rng.below(self.vm.npool) as i64 }
    }
    pub fn shape(&mut self) -> Vec<usize> {
        if self.giant {
            return match self.rng.below(4) { 0 | 1 => vec![self.rng.range(65537, 70000) as usize], 2 => vec![self.rng.range(257, 290) as usize, self.rng.range(257, 290) as usize], _ => vec![2, self.rng.range(32769, 34000) as usize] };
        }
        if self.huge {
            return match self.rng.below(6) {
                0 | 1 => vec![self.rng.range(4097, 8300) as usize], 2 => vec![2, self.rng.range(2049, 4200) as usize], 3 => vec![self.rng.range(2049, 4200) as usize, 2],
                4 => vec![self.rng.range(64, 91) as usize, self.rng.range(64, 91) as usize], _ => vec![17, 16, self.rng.range(15, 20) as usize] };
        }
        if self.large {
            return match self.rng.below(6) {
                0 => vec![self.rng.range(300, 1500) as usize], 1 => vec![self.rng.range(20, 40) as usize, self.rng.range(15, 40) as usize],
                2 => vec![self.rng.range(5, 12) as usize, self.rng.range(5, 12) as usize, self.rng.range(5, 12) as usize],
                3 => vec![2, self.rng.range(60, 300) as usize], 4 => vec![self.rng.range(60, 300) as usize, 3], _ => vec![self.rng.range(1000, 2000) as usize] };
        }
        if self.nd > 50 || (self.nd >= 4 && self.rng.chance(1) && self.rng.chance(60)) {
            // many axes, most of them short
            let top = if self.rng.chance(25) { 24 } else { 13 };
            let nd = self.rng.range(7, top) as usize;
            let mut sh: Vec<usize> = (0..nd).map(|_| self.rng.weighted(&[55, 35, 10]) + 1).collect();
            while size(&sh) > self.maxel { let i = self.rng.below(nd); if sh[i] > 1 { sh[i] -= 1; } }
            return sh;
        }
        let w = [3, 14, 26, 24, 16, 8, 4];
        let nd = self.rng.weighted(&w[..=self.nd.min(6)]);
        let mut sh: Vec<usize> = (0..nd).map(|_| { let k = self.rng.weighted(&[12, 24, 26, 14, 10, 4, 4, 2]); k + 1 }).collect();
        if nd > 0 && self.rng.chance(18) { let i = self.rng.below(nd); sh[i] = self.rng.range(7, 41) as usize; }
        while size(&sh) > self.maxel { let i = self.rng.below(nd); if sh[i] > 1 { sh[i] = (sh[i] + 1) / 2; } }
        sh
    }
    fn run(&mut self, c: Cmd) -> Option<i64> {
        if self.vm.poisoned { return None; }
        let d = self.vm.next;
        let want = c.d == -1;
        let o = self.vm.exec(&c);
        if want && o == Out::Ok && self.vm.slots.contains_key(&d) { Some(d) } else { None }
    }
    fn view(&mut self, op: &str, s: i64, n: Vec<i64>) -> Option<i64> {
        let mut c = cmd(op); c.s = vec![s]; c.d = -1; c.n = n;
        c.f = "r".into();
        if ["view", "reshape", "squeeze", "unsqueeze", "T", "transpose"].contains(&op) && self.rng.chance(30) && !self.vm.has_children(s) { c.f = "c".into(); c.c = vec![s]; }
        if op == "reshape" { c.t = vec![(*self.rng.pick(&["arr", "arr", "vec", "vec", "vec", "slice", "range", "one"])).into()]; }
        if ["unsqueeze", "transpose", "slice"].contains(&op) && self.rng.chance(40) { c.t = vec!["axis".into()]; }
        if op == "diag" {
            let (o, x, y) = (c.n[0], c.n[1], c.n[2]);
            let mut fs = vec!["f"];
            if o == 0 { fs.push("a"); fs.push("A"); }
            if x == 0 && y == 1 { fs.push("o"); if o == 0 { fs.push("p"); } }
            c.t = vec![self.rng.pick(&fs).to_string()];
        }
        self.run(c)
    }
    /// nested literal of the given shape
    fn nest(&mut self, sh: &[usize]) -> Vec<Tok> { (0..sh[0]).map(|_| if sh.len() == 1 { Tok::V(self.token()) } else { Tok::N(self.nest(&sh[1..])) }).collect() }
    pub fn mk_plain(&mut self, sh: &[usize]) -> Option<i64> {
        if size(sh) > 140000 { return None; }
        if sh.is_empty() || self.rng.chance(4) {
            let mut c = cmd("full"); c.d = -1; c.n = sh.iter().map(|&x| x as i64).collect(); c.v = vec![self.token()];
            c.f = if sh.is_empty() && self.rng.chance(50) { "scalar" } else { "full" }.into();
            return self.run(c);
        }
        if sh.len() <= 6 && self.rng.chance(60) {
            let x = self.nest(sh);
            let mut c = cmd("new"); c.d = -1; c.n = vec![sh.len() as i64]; c.f = "V".repeat(sh.len()); c.x = x;
            return self.run(c);
        }
        let n = size(sh);
        let x = self.nest(&[n]);
        let mut c = cmd("new"); c.d = -1; c.n = vec![1]; c.f = "V".into(); c.x = x;
        let s = self.run(c)?;
        self.view("reshape", s, sh.iter().map(|&x| x as i64).collect())
    }
    /// an array of exactly this shape, in a random memory layout
    pub fn mk(&mut self, sh: &[usize], depth: usize) -> Option<i64> {
        let nd = sh.len();
        if self.huge && nd >= 2 && depth > 0 && self.rng.chance(60) { let mut s2 = sh.to_vec(); s2.swap(0, nd - 1); let s = self.mk_plain(&s2)?; return self.view("transpose", s, vec![0, -1]); }
        if depth == 0 || size(sh) > 4000 || self.rng.chance(20) { return self.mk_plain(sh); }
        let i64s = |v: &[usize]| v.iter().map(|&x| x as i64).collect::<Vec<i64>>();
        match self.rng.below(11) {
            0 | 1 if nd >= 2 => {
                let (a, b) = (self.rng.below(nd), self.rng.below(nd));
                let mut s2 = sh.to_vec(); s2.swap(a, b);
                let s = self.mk(&s2, depth - 1)?;
                let neg = self.rng.chance(30);
                self.view("transpose", s, vec![if neg { a as i64 - nd as i64 } else { a as i64 }, b as i64])
            }
            2 | 3 if nd >= 1 => {
                // slice out of something larger
                let mut big = sh.to_vec(); let mut n = vec![];
                for i in 0..nd {
                    let (pre, post) = if self.large && i > 0 { (0, 0) } else { (self.rng.below(3), self.rng.below(3)) };
                    big[i] += pre + post;
                    n.extend(self.slice_of(pre, sh[i], big[i], false));
                }
                if size(&big) > (self.maxel * 8).min(5000) { return self.mk_plain(sh); }
                let s = self.mk(&big, depth - 1)?;
                self.view("slice", s, n)
            }
            4 if nd >= 1 && !self.large => {
                // extra axis fixed by an index
                let k = self.rng.below(nd + 1); let m = self.rng.range(1, 3) as usize;
                let mut big = sh.to_vec(); big.insert(k, m);
                let s = self.mk(&big, depth - 1)?;
                let j = self.rng.below(m) as i64;
                let kk = if self.rng.chance(40) { k as i64 - (nd as i64 + 1) } else { k as i64 };
                if self.rng.chance(50) { self.view("slice_along", s, vec![kk, 0, j, 0]) }
                else { let mut n = vec![]; for _ in 0..k { n.extend([3, 0, 0]); } n.extend([0, j, 0]); self.view("slice", s, n) }
            }
            5 if nd >= 1 => {
                // broadcast
                let mut s2 = sh.to_vec();
                for i in 0..nd { if self.rng.chance(40) { s2[i] = 1; } }
                let mut lead = 0; while lead < nd && s2[lead] == 1 && self.rng.chance(50) { lead += 1; }
                let s = self.mk(&s2[lead..].to_vec(), depth - 1)?;
                self.view("broadcast_to", s, i64s(sh))
            }
            6 if nd >= 1 && !self.large => {
                // diagonal as the last axis
                let m = sh[nd - 1]; let off = self.rng.range(-2, 2);
                let (d1, d2) = if off >= 0 { (m + self.rng.below(2), m + off as usize) } else { (m + (-off) as usize, m + self.rng.below(2)) };
                let mut big = sh[..nd - 1].to_vec();
                let a = self.rng.below(nd); big.insert(a, d1);
                let mut b = self.rng.below(nd + 1); big.insert(b, d2);
                let mut a = a; if b <= a { a += 1; }
                if size(&big) > (self.maxel * 8).min(5000) { return self.mk_plain(sh); }
                let s = self.mk(&big, depth - 1)?;
                let n = nd as i64 + 1;
                if self.rng.chance(30) { b = (b as i64 - n) as usize; }
                let _ = &mut a;
                self.view("diag", s, vec![off, a as i64, b as isize as i64])
            }
            7 => { let k = self.rng.below(nd + 1); let mut s2 = sh.to_vec(); s2.insert(k, 1);
                   if sh.contains(&1) { let s = self.mk(&s2, depth - 1)?; let mut n = vec![]; for _ in 0..k { n.extend([3, 0, 0]); } n.extend([0, 0, 0]); self.view("slice", s, n) }
                   else { let s = self.mk(&s2, depth - 1)?; self.view("squeeze", s, vec![]) } }
            8 if sh.contains(&1) => { let k = sh.iter().position(|&x| x == 1).unwrap(); let mut s2 = sh.to_vec(); s2.remove(k); let s = self.mk(&s2, depth - 1)?;
                   let kk = if self.rng.chance(40) { k as i64 - nd as i64 } else { k as i64 };
                   self.view("unsqueeze", s, vec![kk]) }
            9 => { let s2 = factor(&mut self.rng, size(sh), 4); let s = self.mk_plain(&s2)?; self.view("reshape", s, i64s(sh)) }
            10 => { let s = self.mk(sh, depth - 1)?; self.view("view", s, vec![]) }
            _ => self.mk_plain(sh),
        }
    }
    /// slice component selecting start..start+len on an axis of length n
    fn slice_of(&mut self, start: usize, len: usize, n: usize, idx: bool) -> Vec<i64> {
        let (a, b) = (start as i64, (start + len) as i64);
        let mut o = vec![[1, a, b], [4, a, b - 1]];
        if start + len == n { o.push([2, a, 0]); }
        if start == 0 { o.push([5, 0, b]); o.push([6, 0, b - 1]); if len == n { o.push([3, 0, 0]); o.push([3, 0, 0]); } }
        if idx && len == 1 { o.push([0, a, 0]); }
        self.rng.pick(&o).to_vec()
    }
    fn any_slot(&mut self) -> Option<i64> {
        let k: Vec<i64> = self.vm.slots.keys().copied().collect();
        if k.is_empty() { return None; }
        // favour recent slots
        let i = if self.rng.chance(60) { k.len() - 1 - self.rng.below(k.len().min(3)) } else { self.rng.below(k.len()) };
        Some(k[i])
    }
    fn free_slot(&mut self) -> Option<i64> { // may be mutated or consumed
        let k: Vec<i64> = self.vm.slots.keys().copied().filter(|&s| !self.vm.has_children(s)).collect();
        if k.is_empty() { None } else { Some(*self.rng.pick(&k)) }
    }
    fn ax(&mut self, k: usize, nd: usize) -> i64 { if self.rng.chance(35) { k as i64 - nd as i64 } else { k as i64 } }
    fn bad_axis(&mut self, nd: usize) -> i64 { let n = nd as i64; *self.rng.pick(&[n, n + 1, -n - 1, -n - 2, n + 7]) }

    pub fn act_view(&mut self) -> Option<()> {
        let s = self.any_slot()?;
        let sh = self.vm.slots[&s].sh.clone();
        let nd = sh.len();
        let bad = self.rng.chance(self.bad);
        let is = |v: &[usize]| v.iter().map(|&x| x as i64).collect::<Vec<i64>>();
        match self.rng.below(22) {
            0 => { self.view("view", s, vec![]); }
            1 | 2 | 3 => {
                let n = size(&sh);
                let mut t = factor(&mut self.rng, n, 5);
                if n == 1 && self.rng.chance(30) { t = vec![]; }
                if bad {
                    match self.rng.below(4) { 0 => t.push(2), 1 => { if let Some(x) = t.last_mut() { *x += 1 } else { t.push(3) } } 2 => { if t.pop().unwrap_or(1) == 1 { t.push(2) } } _ => { let i = self.rng.below(t.len().max(1)); if !t.is_empty() { t[i] += 1 } } }
                }
                self.view("reshape", s, is(&t));
            }
            4 => { self.view("squeeze", s, vec![]); }
            5 | 6 => { let k = self.rng.below(nd + 1); let a = if bad { self.bad_axis(nd + 1) } else { self.ax(k, nd + 1) }; self.view("unsqueeze", s, vec![a]); }
            7 => { if nd >= 2 || bad { self.view("T", s, vec![]); } }
            8 | 9 | 10 => {
                if nd == 0 && !bad { return None; }
                let mut v = if nd == 0 { vec![0, 0] } else { let (x, y) = (self.rng.below(nd), self.rng.below(nd)); vec![self.ax(x, nd), self.ax(y, nd)] };
                if bad { let i = self.rng.below(2); v[i] = self.bad_axis(nd); }
                self.view("transpose", s, v);
            }
            11..=14 => {
                let k = if self.rng.chance(60) { nd } else { self.rng.below(nd + 1) };
                let mut n = vec![];
                for i in 0..k { n.extend(self.rand_slice(sh[i])); }
                if bad { if nd == 0 || self.rng.chance(20) { for _ in k..=nd { n.extend([3, 0, 0]); } } else if k > 0 { let i = self.rng.below(k); let b = self.bad_slice(sh[i]); n[3 * i..3 * i + 3].copy_from_slice(&b); } }
                self.view("slice", s, n);
            }
            15 | 16 => {
                if nd == 0 && !bad { return None; }
                let k = self.rng.below(nd.max(1));
                let a = if nd == 0 { 0 } else { self.ax(k, nd) };
                let ln = if nd == 0 { 1 } else { sh[k] };
                let mut n = vec![a];
                if bad && self.rng.chance(50) { n[0] = self.bad_axis(nd); n.extend(self.rand_slice(ln)); } else if bad { n.extend(self.bad_slice(ln)); } else { n.extend(self.rand_slice(ln)); }
                self.view("slice_along", s, n);
            }
            17 | 18 => {
                if nd < 2 && !bad { return None; }
                let nn = nd.max(1);
                let x = self.rng.below(nn); let mut y = self.rng.below(nn);
                if x == y && !(bad && self.rng.chance(40)) { y = (x + 1) % nn; }
                let (d1, d2) = (sh.get(x).copied().unwrap_or(1) as i64, sh.get(y).copied().unwrap_or(1) as i64);
                let mut off = self.rng.range(-(d1 - 1), d2 - 1);
                if self.rng.chance(30) { off = 0; }
                let mut v = vec![off, self.ax(x, nd), self.ax(y, nd)];
                if self.rng.chance(25) && nd >= 2 && !bad { v = vec![0, 0, 1]; if self.rng.chance(50) { v[0] = self.rng.range(-(sh[0] as i64 - 1), sh[1] as i64 - 1); } }
                if bad { match self.rng.below(4) { 0 => v[0] = d2 + self.rng.range(0, 1), 1 => v[0] = -d1 - self.rng.range(0, 1), 2 => v[1] = self.bad_axis(nd), _ => v[2] = self.bad_axis(nd) } }
                self.view("diag", s, v);
            }
            19 | 20 => { self.act_bcast(s, bad); }
            _ => { self.act_einview(s, bad); }
        }
        Some(())
    }
    fn rand_slice(&mut self, n: usize) -> Vec<i64> {
        if self.rng.chance(22) { return vec![0, self.rng.below(n) as i64, 0]; }
        if self.rng.chance(3) { let a = self.rng.below(n + 1) as i64; return vec![1, a, a]; } // empty
        let a = self.rng.below(n); let l = 1 + self.rng.below(n - a);
        if self.rng.chance(35) { return self.slice_of(0, n, n, true); }
        self.slice_of(a, l, n, true)
    }
    fn bad_slice(&mut self, n: usize) -> Vec<i64> {
        let n = n as i64; let e = self.rng.range(1, 3);
        let a = self.rng.range(0, n - 1);
        self.rng.pick(&[[0, n, 0], [0, n + e, 0], [1, a, n + e], [1, n + e, n + e + 1], [2, n + e, 0], [4, a, n], [4, a, n + e], [5, 0, n + e], [6, 0, n], [6, 0, n + e], [1, n, n + e], [1, n + 2, n]]).to_vec()
    }
    pub fn act_bcast(&mut self, s: i64, bad: bool) {
        let sh = self.vm.slots[&s].sh.clone();
        let mut to: Vec<i64> = sh.iter().map(|&x| if x == 1 { self.rng.range(1, 4) } else { x as i64 }).collect();
        for _ in 0..self.rng.below(3) { if to.len() < 6 || (self.nd > 50 && to.len() < 16) { to.insert(0, self.rng.range(1, 3)); } }
        if bad {
            match self.rng.below(3) {
                0 if to.len() > sh.len() || !to.is_empty() => { let k = self.rng.below(to.len()); to[k] += 1; }
                1 if !to.is_empty() => { while to.len() >= sh.len() && !to.is_empty() { to.remove(0); } }
                _ => { let k = self.rng.below(to.len().max(1)); if !to.is_empty() { to[k] = if to[k] > 1 && self.rng.chance(50) { 1 } else { to[k] + 1 }; } }
            }
        }
        if to.iter().product::<i64>() > 1500 { return; }
        self.view("broadcast_to", s, to);
    }
    pub fn act_einview(&mut self, s: i64, bad: bool) {
        if T::KIND == Kind::Bool { return; }
        let sh = self.vm.slots[&s].sh.clone();
        let mut lab: Vec<i64> = vec![];
        for i in 0..sh.len() { // repeat a label of equal length now and then
            let same: Vec<usize> = (0..i).filter(|&j| sh[j] == sh[i]).collect();
            if !same.is_empty() && self.rng.chance(40) { let j = *self.rng.pick(&same); lab.push(lab[j]); } else { let mut l = self.rng.range(1, 40); while lab.contains(&l) { l = self.rng.range(1, 40); } lab.push(l); }
        }
        let mut out: Vec<i64> = lab.clone(); out.sort(); out.dedup();
        self.rng.shuffle(&mut out);
        if self.rng.chance(20) && !out.is_empty() { out.pop(); }
        if bad { self.spoil(&mut vec![lab.clone()], &mut out); if self.rng.chance(40) { if self.rng.chance(50) { lab.push(41); } else { lab.pop(); } } }
        let mut c = cmd("einsum_view"); c.s = vec![s]; c.d = -1; c.lab = vec![lab]; c.lo = out; c.f = "r".into();
        self.run(c);
    }
    fn spoil(&mut self, lab: &mut Vec<Vec<i64>>, out: &mut Vec<i64>) {
        match self.rng.below(6) {
            0 => out.push(45),
            1 => { if let Some(&x) = out.first() { out.push(x); } else { out.push(46); } }
            2 => { let i = self.rng.below(lab.len()); if let Some(x) = lab[i].last_mut() { *x = -1; } else { lab[i].push(44); } }
            3 => { let i = self.rng.below(lab.len()); lab[i].push(43); }
            4 => { let i = self.rng.below(lab.len()); if lab[i].pop().is_none() { lab[i].push(42); } }
            _ => { let i = self.rng.below(lab.len()); if let Some(x) = lab[i].first_mut() { *x = -2; } else { out.push(47); } }
        }
    }
    pub fn act_copy(&mut self) -> Option<()> {
        let s = self.any_slot()?;
        let mut c = cmd(if self.rng.chance(55) { "clone" } else { "flatten" }); c.s = vec![s]; c.d = -1; self.run(c); Some(())
    }
    pub fn act_read(&mut self) -> Option<()> { let s = self.any_slot()?; let mut c = cmd("flatiter"); c.s = vec![s]; c.t = vec![if self.rng.chance(8) { "10".into() } else { self.way() }]; self.run(c); Some(()) }
    fn index(&mut self, sh: &[usize]) -> Vec<i64> {
        let mut n: Vec<i64> = sh.iter().map(|&x| if self.rng.chance(25) { x as i64 - 1 } else { self.rng.below(x) as i64 }).collect();
        if self.rng.chance(self.bad) {
            if !n.is_empty() && self.rng.chance(70) { let i = self.rng.below(n.len()); n[i] = sh[i] as i64 + self.rng.range(0, 1); }
            else if self.rng.chance(50) && n.len() < 7 { n.push(0); } else if n.pop().is_none() { n.push(0); }
        }
        n
    }
    pub fn act_get(&mut self) -> Option<()> {
        let s = self.any_slot()?; let sh = self.vm.slots[&s].sh.clone();
        let mut c = cmd("getidx"); c.s = vec![s]; c.n = self.index(&sh); c.f = if c.n.len() == 1 && self.rng.chance(50) { "u" } else { "a" }.into();
        if c.n.len() > 7 { return None; }
        self.run(c); Some(())
    }
    pub fn act_set(&mut self) -> Option<()> {
        let s = self.free_slot()?; let sh = self.vm.slots[&s].sh.clone();
        let mut c = cmd("setidx"); c.s = vec![s]; c.n = self.index(&sh); c.v = vec![self.token()]; c.f = if c.n.len() == 1 && self.rng.chance(50) { "u" } else { "a" }.into();
        if c.n.len() > 7 { return None; }
        self.run(c); Some(())
    }
    pub fn act_fill(&mut self) -> Option<()> {
        let s = self.free_slot()?;
        let mut c = cmd("fill"); c.s = vec![s];
        if self.rng.chance(25) { c.f = "z".into(); c.v = vec![{ let z = T::of(0); self.vm.tok(z) }]; } else { c.f = "v".into(); c.v = vec![self.token()]; }
        self.run(c); Some(())
    }
    fn way(&mut self) -> String { if self.rng.chance(50) { 0 } else { self.rng.below(crate::vm::WAYS) }.to_string() }
    fn via(&mut self) -> bool { T::KIND == Kind::Float && self.rng.chance(25) }
    pub fn act_iter(&mut self) -> Option<()> {
        let s = self.any_slot()?; let sh = self.vm.slots[&s].sh.clone(); let nd = sh.len();
        let mut c = cmd("iter"); c.s = vec![s]; c.t = vec![self.way()];
        let bad = self.rng.chance(self.bad);
        match self.rng.below(4) {
            0 => { if nd == 0 && !bad { return None; } c.f = "plain".into(); c.n = vec![0]; }
            1 => { if nd == 0 && !bad { return None; } c.f = "along".into(); let k = self.rng.below(nd.max(1)); c.n = vec![if bad || nd == 0 { self.bad_axis(nd) } else { self.ax(k, nd) }]; }
            _ => {
                c.f = "nd".into();
                let mut ax: Vec<i64> = (0..nd as i64).collect(); self.rng.shuffle(&mut ax); let k = self.rng.below(nd + 1); ax.truncate(k);
                if self.rng.chance(50) { ax.sort(); }
                if bad { if !ax.is_empty() && self.rng.chance(50) { let x = ax[0]; ax.push(x); } else { ax.push(nd as i64 + self.rng.range(0, 1)); } }
                c.n = ax;
            }
        }
        let cnt: usize = c.n.iter().filter_map(|&a| { let a = if a < 0 { a + nd as i64 } else { a }; sh.get(a as usize) }).product();
        if cnt > 700 { return None; }
        self.run(c); Some(())
    }
    pub fn act_data(&mut self) -> Option<()> {
        if self.rng.chance(65) { let s = self.any_slot()?; let mut c = cmd("data_slice"); c.s = vec![s]; self.run(c); }
        else { let s = self.free_slot()?; let mut c = cmd("into_vec"); c.s = vec![s]; c.c = vec![s]; self.run(c); }
        Some(())
    }
    pub fn act_value(&mut self) -> Option<()> {
        let small: Vec<i64> = self.vm.slots.iter().filter(|(_, s)| size(&s.sh) == 1).map(|(k, _)| *k).collect();
        let s = if !small.is_empty() && !self.rng.chance(self.bad) { *self.rng.pick(&small) } else { self.any_slot()? };
        let mut c = cmd("value"); c.s = vec![s]; self.run(c); Some(())
    }
    pub fn act_drop(&mut self) -> Option<()> { let s = self.free_slot()?; let mut c = cmd("drop"); c.s = vec![s]; c.c = vec![s]; self.run(c); Some(()) }

    /// a shape that broadcasts with sh (or one that does not)
    fn partner(&mut self, sh: &[usize], bad: bool) -> Vec<usize> {
        let mut b = sh.to_vec();
        if !self.rng.chance(35) {
            for x in b.iter_mut() { if self.rng.chance(25) { *x = 1; } else if *x == 1 && self.rng.chance(30) { *x = 1 + self.rng.below(4); } }
            if self.rng.chance(35) { let k = self.rng.below(b.len() + 1); b.drain(..k); }
            if self.rng.chance(20) && b.len() < 5 { b.insert(0, 1 + self.rng.below(3)); }
        }
        if bad && !b.is_empty() { let k = self.rng.below(b.len()); b[k] = if b[k] == 1 { 3 } else { b[k] + 1 }; }
        b
    }
    fn bc(a: &[usize], b: &[usize]) -> usize {
        let n = a.len().max(b.len());
        (0..n).map(|i| { let x = if i + a.len() >= n { a[i + a.len() - n] } else { 1 }; let y = if i + b.len() >= n { b[i + b.len() - n] } else { 1 }; x.max(y) }).product()
    }
    fn operand(&mut self, sh: &[usize], depth: usize) -> Option<i64> {
        // reuse a slot of that shape now and then
        if self.rng.chance(25) { let k: Vec<i64> = self.vm.slots.iter().filter(|(_, s)| s.sh == sh).map(|(k, _)| *k).collect(); if !k.is_empty() { return Some(*self.rng.pick(&k)); } }
        let s = self.mk(sh, depth)?;
        if self.vm.slots.get(&s).map(|x| x.sh == sh).unwrap_or(false) { Some(s) } else { None }
    }
    pub fn act_binop(&mut self, scalar_pct: u32) -> Option<()> {
        if T::ops().is_empty() { return None; }
        let a = if self.rng.chance(40) { self.any_slot()? } else { let sh = self.shape(); let dep = self.rng.below(4); self.operand(&sh, dep)? };
        let sh = self.vm.slots.get(&a)?.sh.clone();
        let mut c = cmd("binop"); c.d = -1;
        let ops: Vec<&str> = if self.vm.fp { vec!["+", "-", "*"] } else { T::ops().to_vec() };
        c.t = vec![self.rng.pick(&ops).to_string()];
        if self.vm.fp && T::KIND == Kind::Uint { c.t = vec!["+".into()]; }
        if self.rng.chance(scalar_pct) {
            c.s = vec![a]; c.v = vec![self.token()]; c.f = "s".into();
            if self.rng.chance(40) && !self.vm.has_children(a) { c.c = vec![a]; }
        } else {
            let bad = self.rng.chance(self.bad);
            let shb = self.partner(&sh, bad);
            if Self::bc(&sh, &shb) > if self.giant { 90000 } else if self.huge { 12000 } else { 2500 } { return None; }
            let dep = self.rng.below(4);
            let b = if self.rng.chance(8) { a } else { self.operand(&shb, dep)? };
            if !self.vm.slots.contains_key(&a) { return None; }
            c.s = if self.rng.chance(70) { vec![a, b] } else { vec![b, a] };
            c.f = "a".into();
            if a != b {
                for x in [a, b] { if self.rng.chance(35) && !self.vm.has_children(x) { c.c.push(x); } }
            }
        }
        if self.vm.fp { let m = |s: i64| self.vm.els(s).iter().fold(0f64, |p, x| p.max(x.f().abs())); let k = m(c.s[0]); let l = if c.s.len() == 2 { m(c.s[1]) } else { 10.0 };
            if (k + 1.0) * (l + 1.0) > T::maxint().min(1e12) { return None; } }
        self.run(c); Some(())
    }
    pub fn act_neg(&mut self) -> Option<()> {
        if !T::can_neg() { return None; }
        let s = if self.rng.chance(50) { self.any_slot()? } else { let sh = self.shape(); let dep = self.rng.below(4); self.operand(&sh, dep)? };
        if !self.vm.slots.contains_key(&s) { return None; }
        let mut c = cmd("neg"); c.s = vec![s]; c.d = -1; if self.rng.chance(40) && !self.vm.has_children(s) { c.c = vec![s]; }
        self.run(c); Some(())
    }
    pub fn act_assign(&mut self) -> Option<()> {
        if T::ops().is_empty() { return None; }
        if self.rng.chance(50) { let sh = self.shape(); let dep = self.rng.below(4); self.operand(&sh, dep)?; }
        let a = self.free_slot()?;
        let sh = self.vm.slots[&a].sh.clone();
        let mut c = cmd("assign");
        let ops: Vec<&str> = if self.vm.fp { vec!["+", "-", "*"] } else { T::ops().to_vec() };
        c.t = vec![self.rng.pick(&ops).to_string()];
        if self.vm.fp && T::KIND == Kind::Uint { c.t = vec!["+".into()]; }
        if self.rng.chance(30) { c.s = vec![a]; c.v = vec![self.token()]; c.f = "s".into(); }
        else {
            let mut shb = sh.clone();
            for x in shb.iter_mut() { if self.rng.chance(20) { *x = 1; } }
            if self.rng.chance(25) { let k = self.rng.below(shb.len() + 1); shb.drain(..k); }
            if self.rng.chance(self.bad) { if self.rng.chance(30) && shb.len() < 5 { while shb.len() <= sh.len() { shb.insert(0, 2); } } else if !shb.is_empty() { let k = self.rng.below(shb.len()); shb[k] = if shb[k] == 1 { 3 } else { shb[k] + 1 }; } }
            // sometimes a view of the same memory
            let alias: Vec<i64> = self.vm.slots.iter().filter(|(k, s)| **k != a && s.buf == self.vm.slots[&a].buf && Self::bc(&s.sh, &sh) == size(&sh) && s.sh.len() <= sh.len()).map(|(k, _)| *k).collect();
            let b = if !alias.is_empty() && self.rng.chance(50) { *self.rng.pick(&alias) } else { let dep = self.rng.below(3); self.operand(&shb, dep)? };
            if b == a || !self.vm.slots.contains_key(&a) || self.vm.has_children(a) { return None; }
            c.s = vec![a, b]; c.f = "a".into();
            if self.rng.chance(30) && !self.vm.has_children(b) && self.vm.slots[&a].parent != b { c.c = vec![b]; }
        }
        if self.vm.fp { let m = |s: i64| self.vm.els(s).iter().fold(0f64, |p, x| p.max(x.f().abs())); let k = m(c.s[0]); let l = if c.s.len() == 2 { m(c.s[1]) } else { 10.0 };
            if (k + 1.0) * (l + 1.0) > T::maxint().min(1e12) { return None; } }
        self.run(c); Some(())
    }
    pub fn act_reduce(&mut self) -> Option<()> {
        if T::KIND == Kind::Bool { return None; }
        let s = if self.rng.chance(25) { self.any_slot()? } else { let sh = self.shape(); let dep = self.rng.below(5); self.operand(&sh, dep)? };
        let sh = self.vm.slots.get(&s)?.sh.clone(); let nd = sh.len();
        // only the pool is ordered
        if !self.vm.fp { let e = self.vm.els(s); if e.iter().any(|&x| self.vm.tok(x) > self.vm.npool as i64) { return None; } }
        let mut ops = if self.vm.fp { vec!["sum", "sum", "product", "min", "max", "min_magnitude", "max_magnitude"] } else { vec!["min", "max", "min_magnitude", "max_magnitude"] };
        if self.mean && T::KIND == Kind::Float { ops = vec!["mean", "mean", "sum"]; }
        if self.ex > 0 { ops = vec!["sum", "product", "mean"]; }
        let o = *self.rng.pick(&ops);
        let mut c = cmd("reduce"); c.s = vec![s]; c.d = if self.ex > 0 && o == "mean" { 0 } else { -1 }; c.t = vec![o.into()];
        let bad = self.rng.chance(self.bad);
        let mut cnt = size(&sh);
        if self.rng.chance(30) || nd == 0 { c.f = "all".into(); }
        else {
            let mut ax: Vec<usize> = (0..nd).collect(); self.rng.shuffle(&mut ax); let k = 1 + self.rng.below(nd); ax.truncate(k);
            if self.rng.chance(3) { ax.clear(); }
            cnt = ax.iter().map(|&i| sh[i]).product();
            c.n = ax.iter().map(|&i| if o == "mean" { i as i64 } else { self.ax(i, nd) }).collect();
            c.f = match ax.len() { 1 => *self.rng.pick(&["one", "axis", "vec"]), 2 => *self.rng.pick(&["arr2", "vec"]), _ => "vec" }.into();
            if bad { if self.rng.chance(50) && !c.n.is_empty() { let x = c.n[0]; let y = if self.rng.chance(50) || o == "mean" { x } else if x < 0 { x + nd as i64 } else { x - nd as i64 }; c.n.push(y); c.f = "vec".into(); } else if !c.n.is_empty() { let i = self.rng.below(c.n.len()); c.n[i] = if o == "mean" { nd as i64 + 1 } else { self.bad_axis(nd) }; } }
        }
        if self.vm.fp {
            let els = self.vm.els(s);
            let m = self.maxabs(s);
            let lim = self.limit();
            match o {
                "sum" => if m * cnt as f64 > lim { return None },
                "mean" => { let mut odd = cnt; while odd % 2 == 0 && odd > 0 { odd /= 2; } if els.iter().any(|x| x.f().is_finite() && x.f() % odd.max(1) as f64 != 0.0) || m * cnt as f64 > lim { return None; } }
                "product" => { let p = els.iter().filter(|x| x.f().is_finite()).fold(1f64, |p, x| p * x.f().abs().max(1.0)); if p > lim { return None; } }
                _ => if m > 23000.0 { return None },
            }
        }
        self.run(c); Some(())
    }
    fn maxabs(&self, s: i64) -> f64 { self.vm.els(s).iter().filter(|x| x.f().is_finite()).fold(0f64, |p, x| p.max(x.f().abs())) }
    /// the largest number whose token tells it exactly (and its sign, where infinities are about)
    fn limit(&self) -> f64 { if self.ex > 0 { 20000.0 } else { T::maxint() * 0.9 } }
    pub fn act_einsum(&mut self) -> Option<()> {
        if T::KIND == Kind::Bool || !self.vm.fp { return None; }
        let mut nops = 1 + self.rng.weighted(&[48, 96, 34, 12, 4, 2, 2]);
        let many = self.rng.chance(4) && T::maxint() > 1e6 && !self.large;
        if many { nops = self.rng.range(8, 15) as usize; self.tiny = true; }
        let r = self.einsum_of(nops, many);
        self.tiny = false;
        r
    }
    fn einsum_of(&mut self, nops: usize, many: bool) -> Option<()> {
        let nlab = 1 + self.rng.below(if nops >= 3 { 4 } else { 5 });
        let dims: Vec<usize> = (0..nlab).map(|_| if self.large && nlab <= 2 { if self.rng.chance(35) { self.rng.range(65, 600) as usize } else if self.rng.chance(30) { self.rng.range(1, 4) as usize } else { self.rng.range(15, 60) as usize } } else { 1 + self.rng.weighted(&[10, 30, 25, 15, 8, 4, 4]) }).collect();
        let mut names: Vec<i64> = (1..=52).collect(); self.rng.shuffle(&mut names); names.truncate(nlab);
        let mut lab: Vec<Vec<i64>> = vec![]; let mut ids: Vec<Vec<usize>> = vec![];
        for _ in 0..nops {
            let k = if many { self.rng.below(3) } else { self.rng.weighted(&[4, 25, 40, 22, 8]) };
            let l: Vec<usize> = (0..k).map(|_| self.rng.below(nlab)).collect();
            let mut l = l;
            if !self.rng.chance(25) { let mut seen = vec![]; l.retain(|x| { let n = !seen.contains(x); seen.push(*x); n }); }
            lab.push(l.iter().map(|&i| names[i]).collect()); ids.push(l);
        }
        let mut used: Vec<usize> = ids.concat(); used.sort(); used.dedup();
        self.rng.shuffle(&mut used);
        let k = self.rng.below(used.len() + 1);
        let outn: Vec<usize> = used[..k].to_vec();
        let mut out: Vec<i64> = outn.iter().map(|&i| names[i]).collect();
        let total: usize = used.iter().map(|&i| dims[i]).product();
        if total > 3000 { return None; }
        let mut s = vec![];
        for l in &ids {
            let mut sh: Vec<usize> = l.iter().map(|&i| dims[i]).collect();
            if self.rng.chance(self.bad / 2) && !sh.is_empty() { let i = self.rng.below(sh.len()); sh[i] += 1; }
            if size(&sh) > 1500 { return None; }
            let dep = self.rng.below(4);
            s.push(if many { self.mk(&sh, dep)? } else { self.operand(&sh, dep)? });
        }
        if s.iter().any(|x| !self.vm.slots.contains_key(x)) { return None; }
        if self.vm.fp { let m: f64 = s.iter().map(|&x| self.maxabs(x).max(1.0)).product(); if m * total as f64 > self.limit() { return None; } }
        if self.rng.chance(self.bad / 2) { if self.rng.chance(15) { lab.push(vec![]); } else { self.spoil(&mut lab, &mut out); } }
        let mut c = cmd("einsum"); c.s = s; c.d = -1; c.lab = lab; c.lo = out;
        self.run(c); Some(())
    }
    /// contraction patterns users write most, in random layouts
    pub fn act_einsum_common(&mut self) -> Option<()> {
        if T::KIND == Kind::Bool || !self.vm.fp { return None; }
        let pats: [(&[&str], &str); 34] = [(&["ij", "jk"], "ik"), (&["ij", "kj"], "ik"), (&["ji", "jk"], "ik"), (&["ij", "jk"], "ki"), (&["i", "i"], ""), (&["i", "j"], "ij"), (&["i", "j"], "ji"), (&["ij", "j"], "i"),
            (&["ji", "j"], "i"), (&["i", "ij"], "j"), (&["bij", "bjk"], "bik"), (&["bij", "bkj"], "bik"), (&["ij", "ij"], "ij"), (&["ij", "ij"], ""), (&["ij", "ji"], ""), (&["ii"], "i"), (&["ii"], ""), (&["ij"], "ji"), (&["ij"], "i"), (&["ij"], "j"),
            (&["ij"], ""), (&["ijk"], "kij"), (&["iij"], "ij"), (&["ij", "jk", "kl"], "il"), (&["i", "i", "i"], ""), (&["i", "ij", "j"], ""), (&["ij", "j"], "ij"), (&["i", "ij"], "ij"), (&["i", "i"], "i"), (&["ijk", "k"], "ij"), (&["ijk", "jk"], "i"), (&["", "ij"], "ij"), (&["bi", "bj"], "bij"), (&["ijj", "j"], "i")];
        let p = *self.rng.pick(&pats);
        let mut dim = std::collections::HashMap::new();
        let nl: std::collections::HashSet<char> = p.0.concat().chars().collect();
        let mut total = 1;
        for ch in p.0.concat().chars() { if !dim.contains_key(&ch) { let d = if self.large { if nl.len() <= 1 { self.rng.range(50, 900) } else if nl.len() == 2 { self.rng.range(8, 45) } else { self.rng.range(4, 13) } } else { 1 + self.rng.weighted(&[8, 30, 25, 15, 8, 6, 8]) as i64 }; dim.insert(ch, d as usize); total *= d; } }
        if total > 4000 || p.0.iter().any(|l| l.chars().map(|c| dim[&c]).product::<usize>() > 2500) { return None; }
        let mut s = vec![];
        for l in p.0 { let sh: Vec<usize> = l.chars().map(|c| dim[&c]).collect(); let dep = self.rng.below(4); s.push(self.operand(&sh, dep)?); }
        if s.iter().any(|x| !self.vm.slots.contains_key(x)) { return None; }
        if self.vm.fp { let m: f64 = s.iter().map(|&x| self.maxabs(x).max(1.0)).product(); if m * total as f64 > self.limit() { return None; } }
        let ls = |x: &str| x.chars().map(|c| (c as u8 - b'a' + 1) as i64).collect::<Vec<i64>>();
        let mut c = cmd("einsum"); c.s = s; c.d = -1; c.lab = p.0.iter().map(|x| ls(x)).collect(); c.lo = ls(p.1);
        self.run(c); Some(())
    }
    pub fn act_mat(&mut self) -> Option<()> {
        if T::KIND == Kind::Bool || !self.vm.fp { return None; }
        let mut d = || if self.large { self.rng.range(6, 24) as usize } else { 1 + self.rng.weighted(&[10, 25, 25, 15, 10, 5, 5, 5]) };
        let (b, m, k, n) = (1 + d() % 4, d(), d(), d());
        let (b, m, mut k, n) = (b, m, k, n); let (mut m, mut n) = (m, n);
        if self.large && self.rng.chance(30) { let l = self.rng.range(33, 200) as usize; let q = self.rng.range(1, 5) as usize; match self.rng.below(3) { 0 => { k = l; m = q; n = 1 + q % 3; } 1 => { n = l; m = q; k = 1 + q % 4; } _ => { m = l; n = q; k = 1 + q % 4; } } }
        let (op, mut x, mut y) = match self.rng.below(7) { 0 => ("dot", vec![k], vec![k]), 1 => ("matmul", vec![k], vec![k]), 2 => ("matmul", vec![m, k], vec![k]), 3 | 4 => ("matmul", vec![m, k], vec![k, n]), _ => ("bmm", vec![b, m, k], vec![b, k, n]) };
        if op == "dot" && self.large { let l = if self.giant { self.rng.range(65537, 70000) } else if self.huge { self.rng.range(4097, 9000) } else { self.rng.range(50, 1500) } as usize; x = vec![l]; y = vec![l]; }
        if self.rng.chance(self.bad) { match self.rng.below(4) { 0 => { let i = self.rng.below(x.len()); x[i] += 1; } 1 => { let i = self.rng.below(y.len()); y[i] += 1; } 2 => { x.insert(0, 2); } _ => { y.insert(0, 2); } } }
        if size(&x) > 2000 || size(&y) > 2000 || size(&x) * n > 12000 { return None; }
        let (da, db) = (self.rng.below(4), self.rng.below(4));
        let a = self.operand(&x, da)?; let bb = if x == y && self.rng.chance(8) { a } else { self.operand(&y, db)? };
        if !self.vm.slots.contains_key(&a) || !self.vm.slots.contains_key(&bb) { return None; }
        if self.vm.fp && self.maxabs(a).max(1.0) * self.maxabs(bb).max(1.0) * *x.last().unwrap_or(&1) as f64 > self.limit() { return None; }
        let mut c = cmd("mat"); c.s = vec![a, bb]; c.d = -1; c.t = vec![op.into()];
        if a != bb && self.rng.chance(30) && !self.vm.has_children(bb) { c.c = vec![bb]; }
        self.run(c); Some(())
    }
    pub fn act_trace(&mut self) -> Option<()> {
        if T::KIND == Kind::Bool || !self.vm.fp { return None; }
        let s = if self.rng.chance(30) { self.any_slot()? } else { let mut sh = self.shape(); while sh.len() < 2 { sh.push(3); } let dep = self.rng.below(4); self.operand(&sh, dep)? };
        let sh = self.vm.slots.get(&s)?.sh.clone(); let nd = sh.len();
        let bad = self.rng.chance(self.bad);
        if nd < 2 && !bad { return None; }
        let nn = nd.max(1);
        let x = self.rng.below(nn); let mut y = self.rng.below(nn); if x == y && !(bad && self.rng.chance(40)) { y = (x + 1) % nn; }
        let (d1, d2) = (sh.get(x).copied().unwrap_or(1) as i64, sh.get(y).copied().unwrap_or(1) as i64);
        let mut v = vec![self.rng.range(-(d1 - 1), d2 - 1), self.ax(x, nd), self.ax(y, nd)];
        let mut f = "f";
        match self.rng.below(5) { 0 => { f = "p"; v = vec![0, 0, 1]; } 1 => { f = "o"; v[1] = 0; v[2] = 1; if nd >= 2 { v[0] = self.rng.range(-(sh[0] as i64 - 1), sh[1] as i64 - 1); } } 2 => { f = if self.rng.chance(50) { "a" } else { "A" }; v[0] = 0; } _ => {} }
        if bad { match f { "p" => {} "o" => v[0] = 40, "a" | "A" => v[1] = self.bad_axis(nd), _ => match self.rng.below(3) { 0 => v[0] = if self.rng.chance(50) { d2 } else { -d1 }, 1 => v[1] = self.bad_axis(nd), _ => v[2] = self.bad_axis(nd) } } }
        if self.vm.fp && self.maxabs(s) * d1.max(d2) as f64 > self.limit() { return None; }
        let mut c = cmd("trace"); c.s = vec![s]; c.d = -1; c.n = v; c.f = f.into();
        self.run(c); Some(())
    }
    pub fn act_diag(&mut self) -> Option<()> {
        let mut sh = self.shape(); while sh.len() < 2 { sh.push(3); } let dep = self.rng.below(4);
        let s = self.operand(&sh, dep)?;
        let nd = sh.len();
        let x = self.rng.below(nd); let y = (x + 1 + self.rng.below(nd - 1)) % nd;
        let (d1, d2) = (sh[x] as i64, sh[y] as i64);
        let mut v = vec![if self.rng.chance(35) { 0 } else { self.rng.range(-(d1 - 1), d2 - 1) }, self.ax(x, nd), self.ax(y, nd)];
        if self.rng.chance(self.bad) { match self.rng.below(4) { 0 => v[0] = d2, 1 => v[0] = -d1, 2 => v[1] = self.bad_axis(nd), _ => v[2] = v[1] } }
        self.view("diag", s, v); Some(())
    }
    pub fn act_eq(&mut self) -> Option<()> {
        let sh = self.shape(); let dep = self.rng.below(4);
        let a = if self.rng.chance(50) { self.any_slot()? } else { self.operand(&sh, dep)? };
        if !self.vm.slots.contains_key(&a) { return None; }
        let sh = self.vm.slots[&a].sh.clone();
        let b = match self.rng.below(6) {
            0 | 1 => { let mut c = cmd("clone"); c.s = vec![a]; c.d = -1; let b = self.run(c)?;
                   if self.rng.chance(60) { // differ in one element
                       let mut c = cmd("setidx"); c.s = vec![b]; c.n = sh.iter().map(|&x| if self.rng.chance(35) { x as i64 - 1 } else { self.rng.below(x) as i64 }).collect(); c.v = vec![self.token()]; c.f = "a".into(); if c.n.len() <= 7 { self.run(c); } }
                   b }
            2 => { // same data, another layout
                   if sh.len() >= 2 { let (x, y) = (self.rng.below(sh.len()) as i64, self.rng.below(sh.len()) as i64);
                       let t = self.view_r("transpose", a, vec![x, y])?; let mut c = cmd("clone"); c.s = vec![t]; c.d = -1; let k = self.run(c)?; self.view_r("transpose", k, vec![x, y])? } else { a } }
            3 => { // same elements, other shape
                   let s2 = factor(&mut self.rng, size(&sh), 4); let mut c = cmd("clone"); c.s = vec![a]; c.d = -1; let k = self.run(c)?; self.view("reshape", k, s2.iter().map(|&x| x as i64).collect())? }
            4 => { let b = self.partner(&sh, false); let dep = self.rng.below(3); self.operand(&b, dep)? }
            _ => self.any_slot()?,
        };
        if !self.vm.slots.contains_key(&a) || !self.vm.slots.contains_key(&b) { return None; }
        let mut c = cmd("eq"); c.s = if self.rng.chance(50) { vec![a, b] } else { vec![b, a] }; c.f = self.rng.pick(&["vv", "rr", "rv", "vr", "ne"]).to_string();
        self.run(c); Some(())
    }
    fn view_r(&mut self, op: &str, s: i64, n: Vec<i64>) -> Option<i64> { let mut c = cmd(op); c.s = vec![s]; c.d = -1; c.n = n; c.f = "r".into(); self.run(c) }
    pub fn act_debug(&mut self) -> Option<()> { if self.giant { return None; } let s = self.any_slot()?; let mut c = cmd("debug"); c.s = vec![s]; self.run(c); Some(()) }
    pub fn act_astype(&mut self) -> Option<()> {
        if T::KIND == Kind::Bool || self.vm.fp { return None; }
        let s = self.any_slot()?;
        let to = DTYPES[self.rng.below(14)];
        // a finite double outside the range of f32 becomes infinite: leave that open
        if to == "f32" && T::NAME == "f64" && self.vm.els(s).iter().any(|x| x.f().is_finite() && !(x.f() as f32).is_finite()) { return None; }
        if to == "f32" && (T::NAME == "u128") && self.vm.els(s).iter().any(|x| x.f() > 3.4e38) { return None; }
        let mut c = cmd("astype"); c.s = vec![s]; c.d = 0; c.t = vec![to.into()];
        self.run(c); Some(())
    }
    pub fn act_new(&mut self) -> Option<()> {
        // nested data of every form, sometimes ragged or empty
        let form = self.rng.pick(T::forms()).to_string();
        let depth = form.len();
        let fixed: Vec<usize> = form.chars().map(|c| c.to_digit(10).unwrap_or(0) as usize).collect();
        let mut sh: Vec<usize> = fixed.iter().map(|&n| if n > 0 { n } else { 1 + self.rng.weighted(&[25, 40, 25, 10]) }).collect();
        if depth == 1 && fixed[0] == 0 && self.rng.chance(30) { sh[0] = self.rng.range(5, 40) as usize; }
        while size(&sh) > 200 { let i = self.rng.below(depth); if fixed[i] == 0 && sh[i] > 1 { sh[i] -= 1; } }
        let mut x = self.nest(&sh);
        if self.rng.chance(self.bad) {
            // change the length of one Vec at a random level >= 1 (or make one empty)
            let lv: Vec<usize> = (0..depth).filter(|&i| fixed[i] == 0).collect();
            if !lv.is_empty() {
                let l = *self.rng.pick(&lv);
                let empty = self.rng.chance(15);
                let sh2 = sh.clone();
                let sub = if l + 1 < depth { Some(self.nest(&sh2[l + 1..])) } else { None };
                let t = self.token();
                let mut cur = &mut x;
                for k in 0..l { let i = if self.rng.chance(50) { sh[k] - 1 } else { self.rng.below(sh[k]) }; match &mut cur[i] { Tok::N(v) => cur = v, _ => unreachable!() } }
                if empty { cur.clear(); }
                else if self.rng.chance(50) && cur.len() > 1 { cur.pop(); }
                else { cur.push(match sub { Some(s) => Tok::N(s), None => Tok::V(t) }); }
            }
        }
        let mut c = cmd("new"); c.d = -1; c.n = vec![depth as i64]; c.f = form; c.x = x;
        self.run(c); Some(())
    }
    pub fn act_full(&mut self) -> Option<()> {
        let sh = self.shape();
        let mut c = cmd("full"); c.d = -1; c.n = sh.iter().map(|&x| x as i64).collect(); c.v = vec![self.token()]; c.f = "full".into();
        if self.rng.chance(self.bad / 2) && !c.n.is_empty() { let i = self.rng.below(c.n.len()); c.n[i] = 0; }
        match self.rng.below(5) {
            0 => { c.f = "zeros".into(); let z = self.vm.tok(T::of(0)); c.v = vec![z]; }
            1 => { c.f = "ones".into(); let z = self.vm.tok(T::of(1)); c.v = vec![z]; }
            2 => { if c.n.len() == 1 { c.f = "usize".into() } else if c.n.len() == 2 { c.f = "arr2".into() } else if c.n.is_empty() { c.f = "scalar".into() } }
            _ => {}
        }
        if self.via() { c.t = vec!["tensor".into()]; }
        self.run(c); Some(())
    }
    pub fn act_arange(&mut self) -> Option<()> {
        if T::KIND == Kind::Bool || !self.vm.fp { return None; }
        let mut c = cmd("arange"); c.d = -1; c.f = "step".into();
        let mut base: i128 = 0;
        let (mut a, mut st, cnt, mut k) = (self.rng.range(-20, 20), *self.rng.pick(&[1i64, 1, 2, 3, 5, 7]), self.rng.range(1, 30), 1);
        if T::KIND == Kind::Uint { a = a.abs(); }
        if T::maxint() < 200.0 { a = a.abs() % 10; st = st.min(3); }
        let mut b = a + st * (cnt - 1) + self.rng.range(1, st);
        if T::KIND == Kind::Float { match self.rng.below(4) { 0 => { k = 4; } 1 => { k = 8; } _ => {} }
            if self.rng.chance(25) { st = -st; b = a + st * (cnt - 1) - self.rng.range(1, -st); } }
        else if T::KIND == Kind::Int && self.rng.chance(20) { st = -st; b = a + st * (cnt - 1) - self.rng.range(1, -st); }
        if k == 1 && self.rng.chance(40) {
            // far from zero, where single precision no longer separates neighbours
            base = match T::NAME { "i8" | "u8" => 0, "i16" => 20000, "u16" => 40000, "i32" => *self.rng.pick(&[16777217i128, 2000000000]), "u32" => *self.rng.pick(&[16777217i128, 4000000000]), "f32" => 10000000, "f64" => *self.rng.pick(&[16777217i128, 4503599627370497]),
                _ => *self.rng.pick(&[16777217i128, 4503599627370497]) };
        }
        if self.rng.chance(15) { // long range
            if T::maxint() > 30000.0 { a = 0; st = 1; b = self.rng.range(300, 2500); k = 1; } }
        if self.rng.chance(25) && st == 1 && k == 1 { c.f = "one".into(); }
        if self.rng.chance(4) { b = a - if T::KIND == Kind::Uint || self.rng.chance(40) { 0 } else { st * self.rng.range(1, 3) }; c.d = 0; }
        if T::KIND == Kind::Float && self.rng.chance(25) {
            // steps that are not exact in binary, ending in the middle of one
            let cnt = if self.rng.chance(50) { self.rng.range(500, 3000) } else { self.rng.range(2, 60) };
            st = *self.rng.pick(&[2i64, 3, 4, 7, -3]); k = -*self.rng.pick(&[3i64, 5, 10, 20, 30, 100]); base = 0;
            b = a + st * (cnt - 1) + st.signum() * self.rng.range(1, st.abs() - 1); c.f = "step".into(); c.d = 0;
        }
        c.n = vec![a, b, st, k]; c.t = vec![base.to_string()]; if self.via() { c.t.push("tensor".into()); } c.v = vec![(base % P as i128) as i64];
        self.run(c); Some(())
    }
    pub fn act_linspace(&mut self) -> Option<()> {
        if T::KIND != Kind::Float || !self.vm.fp { return None; }
        let mut c = cmd("linspace"); c.d = 0;
        let num = if self.rng.chance(self.bad / 3) { 0 } else { *self.rng.pick(&[1i64, 2, 3, 4, 5, 7, 10, 11, 50, 101, 255, 1000]) };
        c.n = vec![self.rng.range(-9, 9), self.rng.range(-9, 9), num, self.rng.below(2) as i64];
        if self.via() { c.t = vec!["tensor".into()]; }
        self.run(c); Some(())
    }
}
