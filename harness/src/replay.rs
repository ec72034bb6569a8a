//! Programs written by the bounded models (spec/MC*.tla): one JSON record per line,
//! {"k": class of element types, "cmds": [...]}.
use crate::elem::*;
use crate::vm::*;
use crate::{sys, tensor};

enum J { I(i64), S(String), A(Vec<J>), O(Vec<(String, J)>) }
struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() { self.i += 1; } }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.i < self.s.len() && self.s[self.i] == c { self.i += 1; true } else { false } }
    fn val(&mut self) -> J {
        self.ws();
        match self.s[self.i] {
            b'[' => { self.i += 1; let mut v = vec![]; if self.eat(b']') { return J::A(v); } loop { v.push(self.val()); if self.eat(b']') { return J::A(v); } assert!(self.eat(b',')); } }
            b'{' => { self.i += 1; let mut v = vec![]; if self.eat(b'}') { return J::O(v); } loop { self.ws(); let k = self.text(); assert!(self.eat(b':')); v.push((k, self.val())); if self.eat(b'}') { return J::O(v); } assert!(self.eat(b',')); } }
            b'"' => J::S(self.text()),
            _ => { let a = self.i; while self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i].is_ascii_digit()) { self.i += 1; } J::I(std::str::from_utf8(&self.s[a..self.i]).unwrap().parse().unwrap()) }
        }
    }
    fn text(&mut self) -> String { assert_eq!(self.s[self.i], b'"'); let a = self.i + 1; self.i = a; while self.s[self.i] != b'"' { self.i += 1; } let r = String::from_utf8(self.s[a..self.i].to_vec()).unwrap(); self.i += 1; r }
}
impl J {
    fn get(&self, k: &str) -> Option<&J> { match self { J::O(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1), _ => None } }
    fn ints(&self) -> Vec<i64> { match self { J::A(v) => v.iter().map(|x| match x { J::I(i) => *i, _ => panic!("int") }).collect(), _ => panic!("ints") } }
    fn toks(&self) -> Vec<Tok> { match self { J::A(v) => v.iter().map(|x| match x { J::I(i) => Tok::V(*i), y => Tok::N(y.toks()) }).collect(), _ => panic!("toks") } }
    fn str(&self) -> String { match self { J::S(s) => s.clone(), _ => panic!("str") } }
    fn cmd(&self) -> Cmd {
        let ints = |k: &str| self.get(k).map(|x| x.ints()).unwrap_or_default();
        Cmd { op: self.get("op").unwrap().str(), s: ints("s"), c: ints("c"), d: match self.get("d") { Some(J::I(i)) => *i, _ => 0 }, n: ints("n"),
              t: match self.get("t") { Some(J::A(v)) => v.iter().map(|x| x.str()).collect(), _ => vec![] }, f: self.get("f").map(|x| x.str()).unwrap_or_default(), v: ints("v"),
              lab: match self.get("lab") { Some(J::A(v)) => v.iter().map(|x| x.ints()).collect(), _ => vec![] }, lo: ints("lo"),
              x: self.get("x").map(|x| x.toks()).unwrap_or_default() }
    }
}

fn arrays<T: Elem>(id: u64, cmds: &[Cmd]) {
    crate::alloc::set_mode((id % 3) as usize);
    let mut vm = Vm::<T>::new(true, vec![]);
    vm.header(id, "model");
    for c in cmds {
        if vm.poisoned { break; }
        // a call on something the library refused to make cannot be made
        if c.s.iter().chain(&c.c).any(|s| !vm.slots.contains_key(s)) || c.c.iter().any(|&s| vm.has_children(s)) { continue; }
        vm.exec(c);
    }
    vm.finish();
    sys::flush();
}
fn tensors<T: tensor::TElem>(id: u64, cmds: &[Cmd]) {
    crate::alloc::set_mode((id % 3) as usize);
    let mut vm = tensor::TVm::<T>::new();
    vm.header(id, "model");
    for c in cmds {
        if vm.poisoned { break; }
        if c.s.iter().chain(&c.c).any(|s| !vm.slots.contains_key(s)) || c.c.iter().any(|&s| !vm.free(s)) || !vm.exact(c) { continue; }
        if c.op == "tback" && if c.f == "G" { !vm.can_back_with(c.s[0], c.s[1]) } else { !vm.can_back(c.s[0], 8) } { continue; }
        if c.op == "tafill" && !vm.can_fill(c.s[0]) { continue; }
        if c.op == "tdrop" && !vm.free(c.s[0]) { continue; }
        vm.exec(c);
    }
    vm.finish(id % 2 == 0);
    sys::flush();
}

pub fn run(file: &str, start: u64, count: u64) {
    let text = std::fs::read_to_string(file).unwrap();
    for (i, line) in text.lines().enumerate() {
        let id = i as u64;
        if id < start || id >= count || line.trim().is_empty() { continue; }
        let j = P { s: line.as_bytes(), i: 0 }.val();
        let cmds: Vec<Cmd> = match j.get("cmds") { Some(J::A(v)) => v.iter().map(|x| x.cmd()).collect(), _ => panic!("cmds") };
        let k = j.get("k").unwrap().str();
        if k == "rand" { crate::rnd::replay(id, &cmds); continue; }
        let pick = |v: &[&'static str]| -> &'static str { v[(id % v.len() as u64) as usize] };
        // a single element type may be named instead of a class
        let dt: &str = match k.as_str() {
            "read" => pick(&["f64", "i8", "u128", "f32", "i32", "u16", "i64", "usize", "i128", "u8", "i16", "u64", "isize", "u32"]),
            "sum" => pick(&["f64", "f32", "i32", "i64", "i16", "isize", "i128"]),
            "mul" => pick(&["f64", "f32", "i64", "i32", "i128", "isize"]),
            "float" | "ten" => pick(&["f64", "f32"]),
            k => k,
        };
        if k == "ten" { if dt == "f64" { tensors::<f64>(id, &cmds) } else { tensors::<f32>(id, &cmds) } continue; }
        with_type!(dt, arrays(id, &cmds));
    }
}
