//! The fifteen element types of the library behind one interface.
use crate::rng::Rng;
use redstone_ml::*;

pub type A<T> = NdArray<'static, T>;
pub enum Arg<T: RawDataType> { R(&'static A<T>), V(A<T>), S(T) }
pub use Arg::*;

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Kind { Bool, Uint, Int, Float }

pub const P: i64 = 46337;
pub const DTYPES: [&str; 15] = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f32", "f64", "bool"];

pub enum Tree<T> { Val(T), Node(Vec<Tree<T>>) }
pub trait Build<T> { fn build(t: &Tree<T>) -> Self; }
impl<T, B: Build<T>> Build<T> for Vec<B> {
    fn build(t: &Tree<T>) -> Self { match t { Tree::Node(v) => v.iter().map(|x| B::build(x)).collect(), _ => unreachable!() } }
}
impl<T, B: Build<T>, const N: usize> Build<T> for [B; N] {
    fn build(t: &Tree<T>) -> Self {
        let v: Vec<B> = <Vec<B> as Build<T>>::build(t);
        match v.try_into() { Ok(a) => a, Err(_) => unreachable!() }
    }
}

/// any non-boolean array (results of conversions)
macro_rules! any_arr { ($($n:ident $t:ty),*) => { pub enum AnyA { $($n(A<$t>)),* } } }
any_arr!(I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, Isize isize, U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, Usize usize, F32 f32, F64 f64);

pub trait Elem: RawDataType {
    const NAME: &'static str;
    const KIND: Kind;
    fn key(self) -> u128;
    fn less(a: Self, b: Self) -> bool;
    fn res(self) -> i64;
    fn of(i: i64) -> Self;
    fn frac(num: i64, den: i64) -> Self;
    fn pool(rng: &mut Rng, wild: u8, n: usize) -> Vec<Self>;
    fn absv(self) -> Option<Self>;
    fn parse(s: &str) -> Option<Self>;
    fn maxint() -> f64;
    fn ops() -> &'static [&'static str];
    fn scalar(op: &str, a: Self, b: Self) -> Option<Self>;
    fn nege(a: Self) -> Option<Self>;
    fn can_neg() -> bool { Self::KIND == Kind::Int || Self::KIND == Kind::Float }
    fn conv(self, to: &str) -> Option<u128>;
    fn f(self) -> f64;
    /// not a number (-1), infinity (-2), negative infinity (-3)
    fn special(_k: i64) -> Self { unreachable!() }
    fn big(i: i128) -> Self;

    fn new_nested(form: &str, t: &Tree<Self>) -> A<Self>;
    fn forms() -> &'static [&'static str];
    fn binop(op: &str, a: Arg<Self>, b: Arg<Self>) -> A<Self>;
    fn assign(op: &str, a: &mut A<Self>, b: Arg<Self>);
    fn neg(a: Arg<Self>) -> A<Self>;
    fn zero(a: &mut A<Self>);
    fn zeros(shape: Vec<usize>) -> A<Self>;
    fn ones(shape: Vec<usize>) -> A<Self>;
    fn reduce(op: &str, a: &A<Self>, axes: Option<Vec<isize>>, form: &str) -> A<Self>;
    fn einsum(a: &[&A<Self>], subs: &[String], out: &str) -> A<Self>;
    fn einsum_view(a: &'static A<Self>, sub: &str, out: &str) -> Option<A<Self>>;
    fn mat(op: &str, a: &A<Self>, b: Arg<Self>) -> A<Self>;
    fn trace(form: &str, a: &A<Self>, off: isize, x: isize, y: isize) -> A<Self>;
    fn astype(a: &A<Self>, to: &str) -> AnyA;
    fn arange(start: Self, stop: Self, step: Option<Self>) -> A<Self>;
    fn linspace(start: Self, stop: Self, num: usize, excl: bool) -> A<Self>;
    /// the same constructors, of tensors
    fn tctor(_: TC<Self>) -> A<Self> { unreachable!() }
}
pub enum TC<T> { Full(T, Vec<usize>), Zeros(Vec<usize>), Ones(Vec<usize>), Scalar(T), Arange(T, T, Option<T>), Lin(T, T, usize, bool) }

/// residue mod P of a finite float, snapped to a multiple of 2^-12 when within a few ulps of one
pub fn float_res(x: f64, eps: f64) -> i64 {
    if x.is_nan() { return -1; }
    if x == f64::INFINITY { return -2; }
    if x == f64::NEG_INFINITY { return -3; }
    let mut x = x;
    let s = (x * 4096.0).round() / 4096.0;
    if (x - s).abs() <= 4.0 * eps * x.abs() { x = s; }
    if x == 0.0 { return 0; }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i64;
    let m = (b & ((1u64 << 52) - 1)) as i64;
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1i64 << 52), e - 1075) };
    let mut r = m % P;
    let two = if e >= 0 { 2 } else { (P + 1) / 2 };
    let mut k = e.abs();
    let mut base = two;
    while k > 0 { if k & 1 == 1 { r = r * base % P; } base = base * base % P; k >>= 1; }
    if x < 0.0 { (P - r) % P } else { r }
}

macro_rules! forms2 { ($a:expr, $b:expr, $o:tt) => { match ($a, $b) {
    (R(x), R(y)) => x $o y, (R(x), V(y)) => x $o y, (V(x), R(y)) => x $o y, (V(x), V(y)) => x $o y,
    (R(x), S(y)) => x $o y, (V(x), S(y)) => x $o y, _ => unreachable!() } } }
macro_rules! forms_assign { ($a:expr, $b:expr, $o:tt) => { match $b { R(y) => *$a $o y, V(y) => *$a $o y, S(y) => *$a $o y } } }

macro_rules! build_leaf { ($($t:ty),*) => { $(impl Build<$t> for $t { fn build(t: &Tree<$t>) -> $t { match t { Tree::Val(v) => *v, _ => unreachable!() } } })* } }
build_leaf!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, bool);

macro_rules! nested_fn {
    ($t:ty, few) => { nested_fn!(@ $t, "V" => Vec<$t>, "VV" => Vec<Vec<$t>>, "VVV" => Vec<Vec<Vec<$t>>>,
        "VVVV" => Vec<Vec<Vec<Vec<$t>>>>, "VVVVV" => Vec<Vec<Vec<Vec<Vec<$t>>>>>, "VVVVVV" => Vec<Vec<Vec<Vec<Vec<Vec<$t>>>>>>,
        "3" => [$t; 3], "22" => [[$t; 2]; 2]); };
    ($t:ty, many) => { nested_fn!(@ $t, "V" => Vec<$t>, "VV" => Vec<Vec<$t>>, "VVV" => Vec<Vec<Vec<$t>>>,
        "VVVV" => Vec<Vec<Vec<Vec<$t>>>>, "VVVVV" => Vec<Vec<Vec<Vec<Vec<$t>>>>>, "VVVVVV" => Vec<Vec<Vec<Vec<Vec<Vec<$t>>>>>>,
        "VVVVVVV" => Vec<Vec<Vec<Vec<Vec<Vec<Vec<$t>>>>>>>,
        "3" => [$t; 3], "1" => [$t; 1], "22" => [[$t; 2]; 2], "32" => [[$t; 2]; 3],
        "2V" => [Vec<$t>; 2], "V2" => Vec<[$t; 2]>, "V3V" => Vec<[Vec<$t>; 3]>, "2VV" => [Vec<Vec<$t>>; 2],
        "VV3" => Vec<Vec<[$t; 3]>>, "231" => [[[$t; 1]; 3]; 2], "2V2" => [Vec<[$t; 2]>; 2], "22V" => [[Vec<$t>; 2]; 2],
        "2V2V" => [Vec<[Vec<$t>; 2]>; 2], "2112" => [[[[$t; 2]; 1]; 1]; 2], "12121" => [[[[[$t; 1]; 2]; 1]; 2]; 1],
        "VV2VV" => Vec<Vec<[Vec<Vec<$t>>; 2]>>, "2VVVV" => [Vec<Vec<Vec<Vec<$t>>>>; 2]); };
    (@ $t:ty, $($f:expr => $ty:ty),*) => {
        fn new_nested(form: &str, t: &Tree<Self>) -> A<Self> {
            match form { $($f => NdArray::<$t>::new(<$ty as Build<$t>>::build(t)),)* _ => unreachable!() }
        }
        fn forms() -> &'static [&'static str] { &[$($f),*] }
    };
}

macro_rules! conv_int { ($s:expr, $to:expr) => { match $to {
    "i8" => i8::try_from($s).ok().map(|x| x.key()), "i16" => i16::try_from($s).ok().map(|x| x.key()),
    "i32" => i32::try_from($s).ok().map(|x| x.key()), "i64" => i64::try_from($s).ok().map(|x| x.key()),
    "i128" => i128::try_from($s).ok().map(|x| x.key()), "isize" => isize::try_from($s).ok().map(|x| x.key()),
    "u8" => u8::try_from($s).ok().map(|x| x.key()), "u16" => u16::try_from($s).ok().map(|x| x.key()),
    "u32" => u32::try_from($s).ok().map(|x| x.key()), "u64" => u64::try_from($s).ok().map(|x| x.key()),
    "u128" => u128::try_from($s).ok().map(|x| x.key()), "usize" => usize::try_from($s).ok().map(|x| x.key()),
    "f32" => Some(($s as f32).key()), "f64" => Some(($s as f64).key()), _ => unreachable!() } } }
macro_rules! f2i { ($x:expr, $t:ty) => { { let t = ($x as f64).trunc();
    if t >= <$t>::MIN as f64 && t < (<$t>::MAX as f64) + 1.0 { Some((t as $t).key()) } else { None } } } }
macro_rules! conv_float { ($s:expr, $to:expr) => { match $to {
    "i8" => f2i!($s, i8), "i16" => f2i!($s, i16), "i32" => f2i!($s, i32), "i64" => f2i!($s, i64), "i128" => f2i!($s, i128),
    "isize" => f2i!($s, isize), "u8" => f2i!($s, u8), "u16" => f2i!($s, u16), "u32" => f2i!($s, u32), "u64" => f2i!($s, u64),
    "u128" => f2i!($s, u128), "usize" => f2i!($s, usize),
    "f32" => Some(($s as f32).key()), "f64" => Some(($s as f64).key()), _ => unreachable!() } } }
macro_rules! astype_fn { () => {
    fn astype(a: &A<Self>, to: &str) -> AnyA { match to {
        "i8" => AnyA::I8(a.astype::<i8>()), "i16" => AnyA::I16(a.astype::<i16>()), "i32" => AnyA::I32(a.astype::<i32>()),
        "i64" => AnyA::I64(a.astype::<i64>()), "i128" => AnyA::I128(a.astype::<i128>()), "isize" => AnyA::Isize(a.astype::<isize>()),
        "u8" => AnyA::U8(a.astype::<u8>()), "u16" => AnyA::U16(a.astype::<u16>()), "u32" => AnyA::U32(a.astype::<u32>()),
        "u64" => AnyA::U64(a.astype::<u64>()), "u128" => AnyA::U128(a.astype::<u128>()), "usize" => AnyA::Usize(a.astype::<usize>()),
        "f32" => AnyA::F32(a.astype::<f32>()), "f64" => AnyA::F64(a.astype::<f64>()), _ => unreachable!() } }
} }

macro_rules! numeric_fns { () => {
    fn zero(a: &mut A<Self>) { a.zero() }
    fn zeros(shape: Vec<usize>) -> A<Self> { NdArray::zeros(shape) }
    fn ones(shape: Vec<usize>) -> A<Self> { NdArray::ones(shape) }
    fn einsum(a: &[&A<Self>], subs: &[String], out: &str) -> A<Self> {
        // fixed-size array forms as users write them, slices otherwise
        match (a.len(), subs.len()) {
            (1, 1) => einsum([a[0]], ([subs[0].as_str()], out)),
            (2, 2) => einsum([a[0], a[1]], ([subs[0].as_str(), subs[1].as_str()], out)),
            _ => einsum(a, (subs, out)),
        }
    }
    fn einsum_view(a: &'static A<Self>, sub: &str, out: &str) -> Option<A<Self>> { einsum_view(a, (sub, out)) }
    fn mat(op: &str, a: &A<Self>, b: Arg<Self>) -> A<Self> {
        match (op, b) {
            ("dot", R(b)) => a.dot(b), ("dot", V(b)) => a.dot(b),
            ("matmul", R(b)) => a.matmul(b), ("matmul", V(b)) => a.matmul(b),
            ("bmm", R(b)) => a.bmm(b), ("bmm", V(b)) => a.bmm(b),
            _ => unreachable!(),
        }
    }
    fn trace(form: &str, a: &A<Self>, off: isize, x: isize, y: isize) -> A<Self> {
        match form { "p" => a.trace(), "o" => a.offset_trace(off), "a" => a.trace_along(x, y), "A" => a.trace_along(Axis(x), Axis(y)), _ => a.offset_trace_along(off, x, y) }
    }
    fn arange(start: Self, stop: Self, step: Option<Self>) -> A<Self> {
        match step { None => NdArray::arange(start, stop), Some(s) => NdArray::arange_with_step(start, stop, s) }
    }
    astype_fn!();
} }
macro_rules! reduce_fn {
    () => { reduce_fn!(a, op, axes, form; ); };
    (mean) => { reduce_fn!(a, op, axes, form; if op == "mean" { return match axes { None => a.mean(), Some(ax) => match form {
        "one" => a.mean_along(ax[0]), "axis" => a.mean_along(Axis(ax[0])), "arr2" => a.mean_along([ax[0], ax[1]]), _ => a.mean_along(ax) } } }); };
    ($a:ident, $op:ident, $axes:ident, $form:ident; $($pre:tt)*) => {
        fn reduce($op: &str, $a: &A<Self>, $axes: Option<Vec<isize>>, $form: &str) -> A<Self> {
            $($pre)*
            match $axes {
                None => match $op { "sum" => $a.sum(), "product" => $a.product(), "min" => $a.min(), "max" => $a.max(),
                    "min_magnitude" => $a.min_magnitude(), "max_magnitude" => $a.max_magnitude(), _ => unreachable!() },
                Some(ax) => match $form {
                    "one" => reduce_along!($a, $op, ax[0]),
                    "axis" => reduce_along!($a, $op, Axis(ax[0])),
                    "arr2" => reduce_along!($a, $op, [ax[0], ax[1]]),
                    _ => reduce_along!($a, $op, ax),
                }
            }
        }
    };
}
macro_rules! reduce_along {
    ($a:expr, $op:expr, $ax:expr) => { match $op { "sum" => $a.sum_along($ax), "product" => $a.product_along($ax), "min" => $a.min_along($ax),
        "max" => $a.max_along($ax), "min_magnitude" => $a.min_magnitude_along($ax), "max_magnitude" => $a.max_magnitude_along($ax), _ => unreachable!() } };
}

macro_rules! impl_int {
    ($t:ident, $kind:ident, $nest:ident, $absv:expr, $nege:expr, $negfn:expr) => {
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const KIND: Kind = Kind::$kind;
            fn key(self) -> u128 { self as i128 as u128 }
            fn less(a: Self, b: Self) -> bool { a < b }
            fn res(self) -> i64 { let m = if Kind::$kind == Kind::Uint { ((self as u128) % (P as u128)) as i64 } else { ((self as i128) % (P as i128)) as i64 }; (m + P) % P }
            fn of(i: i64) -> Self { i as $t }
            fn frac(n: i64, d: i64) -> Self { (n / d) as $t }
            fn big(i: i128) -> Self { i as $t }
            fn f(self) -> f64 { self as f64 }
            fn pool(rng: &mut Rng, wild: u8, n: usize) -> Vec<Self> {
                let mut v: Vec<$t> = vec![];
                let lo: i64 = if Kind::$kind == Kind::Uint { 0 } else { -12 };
                while v.len() < n {
                    let x = match wild {
                        0 => rng.range(lo, 12) as $t,
                        1 => match rng.below(8) { 0 => $t::MAX, 1 => $t::MIN, 2 => ($t::MAX / 2).wrapping_add(rng.below(3) as $t), 3 => 0 as $t, 4 => 1 as $t,
                             _ => ((rng.next() as u128) << 64 | rng.next() as u128) as $t },
                        _ => (rng.next() >> (rng.below(60) as u32)) as $t,
                    };
                    v.push(x);
                }
                v
            }
            fn absv(self) -> Option<Self> { ($absv)(self) }
            fn parse(s: &str) -> Option<Self> { s.parse().ok() }
            fn maxint() -> f64 { $t::MAX as f64 }
            fn ops() -> &'static [&'static str] { &["+", "-", "*", "%", "&", "|", "<<", ">>"] }
            fn scalar(op: &str, a: Self, b: Self) -> Option<Self> {
                match op { "+" => a.checked_add(b), "-" => a.checked_sub(b), "*" => a.checked_mul(b), "%" => a.checked_rem(b),
                    "&" => Some(a & b), "|" => Some(a | b),
                    "<<" => u32::try_from(b).ok().and_then(|s| a.checked_shl(s)), ">>" => u32::try_from(b).ok().and_then(|s| a.checked_shr(s)), _ => None }
            }
            fn nege(a: Self) -> Option<Self> { ($nege)(a) }
            fn conv(self, to: &str) -> Option<u128> { conv_int!(self, to) }
            nested_fn!($t, $nest);
            fn binop(op: &str, a: Arg<Self>, b: Arg<Self>) -> A<Self> {
                match op { "+" => forms2!(a, b, +), "-" => forms2!(a, b, -), "*" => forms2!(a, b, *), "%" => forms2!(a, b, %),
                    "&" => forms2!(a, b, &), "|" => forms2!(a, b, |), "<<" => forms2!(a, b, <<), ">>" => forms2!(a, b, >>), _ => unreachable!() }
            }
            fn assign(op: &str, a: &mut A<Self>, b: Arg<Self>) {
                match op { "+" => forms_assign!(a, b, +=), "-" => forms_assign!(a, b, -=), "*" => forms_assign!(a, b, *=), "%" => forms_assign!(a, b, %=),
                    "&" => forms_assign!(a, b, &=), "|" => forms_assign!(a, b, |=), "<<" => forms_assign!(a, b, <<=), ">>" => forms_assign!(a, b, >>=), _ => unreachable!() }
            }
            fn neg(a: Arg<Self>) -> A<Self> { ($negfn)(a) }
            numeric_fns!();
            reduce_fn!();
            fn linspace(_: Self, _: Self, _: usize, _: bool) -> A<Self> { unreachable!() }
        }
    };
}
macro_rules! impl_sint { ($($t:ident $n:ident),*) => { $(impl_int!($t, Int, $n, |x: $t| x.checked_abs(), |x: $t| x.checked_neg(),
    |a: Arg<$t>| match a { R(x) => -x, V(x) => -x, _ => unreachable!() });)* } }
macro_rules! impl_uint { ($($t:ident $n:ident),*) => { $(impl_int!($t, Uint, $n, |x: $t| Some(x), |_x: $t| None, |_a: Arg<$t>| unreachable!());)* } }
impl_sint!(i8 few, i16 few, i32 many, i64 few, i128 few, isize few);
impl_uint!(u8 many, u16 few, u32 few, u64 few, u128 few, usize few);

macro_rules! impl_float {
    ($t:ident, $bits:expr, $nest:ident) => {
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const KIND: Kind = Kind::Float;
            fn key(self) -> u128 { if self.is_nan() { u128::MAX } else { self.to_bits() as u128 } }
            fn less(a: Self, b: Self) -> bool { if b.is_nan() { !a.is_nan() } else if a == b { a.is_sign_negative() && !b.is_sign_negative() } else { a < b } }
            fn res(self) -> i64 { float_res(self as f64, $t::EPSILON as f64) }
            fn of(i: i64) -> Self { i as $t }
            fn frac(n: i64, d: i64) -> Self { n as $t / d as $t }
            fn big(i: i128) -> Self { i as $t }
            fn f(self) -> f64 { self as f64 }
            fn pool(rng: &mut Rng, wild: u8, n: usize) -> Vec<Self> {
                let mut v: Vec<$t> = vec![];
                while v.len() < n {
                    let x = match wild {
                        0 => rng.range(-48, 48) as $t / 4.0,
                        1 => match rng.below(14) { 0 => $t::INFINITY, 1 => $t::NEG_INFINITY, 2 => $t::MAX, 3 => $t::MIN, 4 => 0.0, 5 => -0.0, 6 => $t::MIN_POSITIVE,
                             7 => $t::EPSILON, 8 => $t::from_bits(1), 9 => 1.0, _ => (rng.range(-1000000, 1000000) as $t) * (10.0 as $t).powi(rng.range(-20, 20) as i32) },
                        2 => (rng.range(-1000000, 1000000) as $t) / 997.0,
                        _ => match rng.below(8) { 0 => $t::NAN, 1 => 0.0, 2 => -0.0, 3 => $t::INFINITY, _ => rng.range(-9, 9) as $t / 2.0 },
                    };
                    v.push(x);
                }
                v
            }
            fn special(k: i64) -> Self { match k { -1 => $t::NAN, -2 => $t::INFINITY, _ => $t::NEG_INFINITY } }
            fn absv(self) -> Option<Self> { Some(self.abs()) }
            fn parse(s: &str) -> Option<Self> { s.parse().ok() }
            fn maxint() -> f64 { (2.0f64).powi($bits) }
            fn ops() -> &'static [&'static str] { &["+", "-", "*", "/", "%"] }
            fn scalar(op: &str, a: Self, b: Self) -> Option<Self> { Some(match op { "+" => a + b, "-" => a - b, "*" => a * b, "/" => a / b, "%" => a % b, _ => return None }) }
            fn nege(a: Self) -> Option<Self> { Some(-a) }
            fn conv(self, to: &str) -> Option<u128> { conv_float!(self, to) }
            nested_fn!($t, $nest);
            fn binop(op: &str, a: Arg<Self>, b: Arg<Self>) -> A<Self> {
                match op { "+" => forms2!(a, b, +), "-" => forms2!(a, b, -), "*" => forms2!(a, b, *), "/" => forms2!(a, b, /), "%" => forms2!(a, b, %), _ => unreachable!() }
            }
            fn assign(op: &str, a: &mut A<Self>, b: Arg<Self>) {
                match op { "+" => forms_assign!(a, b, +=), "-" => forms_assign!(a, b, -=), "*" => forms_assign!(a, b, *=), "/" => forms_assign!(a, b, /=), "%" => forms_assign!(a, b, %=), _ => unreachable!() }
            }
            fn neg(a: Arg<Self>) -> A<Self> { match a { R(x) => -x, V(x) => -x, _ => unreachable!() } }
            numeric_fns!();
            reduce_fn!(mean);
            fn tctor(c: TC<Self>) -> A<Self> {
                let t: Tensor<'static, $t> = match c {
                    TC::Full(v, s) => match s.len() { 1 => Tensor::full(v, s[0]), 2 => Tensor::full(v, [s[0], s[1]]), _ => Tensor::full(v, s) },
                    TC::Zeros(s) => Tensor::zeros(s), TC::Ones(s) => Tensor::ones(s), TC::Scalar(v) => Tensor::scalar(v),
                    TC::Arange(a, b, None) => Tensor::arange(a, b), TC::Arange(a, b, Some(s)) => Tensor::arange_with_step(a, b, s),
                    TC::Lin(a, b, n, false) => Tensor::linspace(a, b, n), TC::Lin(a, b, n, true) => Tensor::linspace_exclusive(a, b, n) };
                t.into_ndarray()
            }
            fn linspace(start: Self, stop: Self, num: usize, excl: bool) -> A<Self> { if excl { NdArray::linspace_exclusive(start, stop, num) } else { NdArray::linspace(start, stop, num) } }
        }
    };
}
impl_float!(f32, 24, few);
impl_float!(f64, 53, many);

impl Elem for bool {
    const NAME: &'static str = "bool";
    const KIND: Kind = Kind::Bool;
    fn key(self) -> u128 { unsafe { *(&self as *const bool as *const u8) as u128 } }
    fn less(a: Self, b: Self) -> bool { !a && b }
    fn res(self) -> i64 { self as i64 }
    fn of(i: i64) -> Self { i != 0 }
    fn frac(n: i64, _d: i64) -> Self { n != 0 }
    fn big(i: i128) -> Self { i != 0 }
    fn f(self) -> f64 { self as u8 as f64 }
    fn pool(_: &mut Rng, _: u8, _: usize) -> Vec<Self> { vec![false, true] }
    fn absv(self) -> Option<Self> { Some(self) }
    fn parse(s: &str) -> Option<Self> { s.parse().ok() }
    fn maxint() -> f64 { 1.0 }
    fn ops() -> &'static [&'static str] { &[] }
    fn scalar(_: &str, _: Self, _: Self) -> Option<Self> { None }
    fn nege(_: Self) -> Option<Self> { None }
    fn conv(self, _: &str) -> Option<u128> { None }
    nested_fn!(bool, few);
    fn binop(_: &str, _: Arg<Self>, _: Arg<Self>) -> A<Self> { unreachable!() }
    fn assign(_: &str, _: &mut A<Self>, _: Arg<Self>) { unreachable!() }
    fn neg(_: Arg<Self>) -> A<Self> { unreachable!() }
    fn zero(a: &mut A<Self>) { a.zero() }
    fn zeros(shape: Vec<usize>) -> A<Self> { NdArray::zeros(shape) }
    fn ones(shape: Vec<usize>) -> A<Self> { NdArray::ones(shape) }
    fn reduce(_: &str, _: &A<Self>, _: Option<Vec<isize>>, _: &str) -> A<Self> { unreachable!() }
    fn einsum(_: &[&A<Self>], _: &[String], _: &str) -> A<Self> { unreachable!() }
    fn einsum_view(_: &'static A<Self>, _: &str, _: &str) -> Option<A<Self>> { unreachable!() }
    fn mat(_: &str, _: &A<Self>, _: Arg<Self>) -> A<Self> { unreachable!() }
    fn trace(_: &str, _: &A<Self>, _: isize, _: isize, _: isize) -> A<Self> { unreachable!() }
    fn astype(_: &A<Self>, _: &str) -> AnyA { unreachable!() }
    fn arange(_: Self, _: Self, _: Option<Self>) -> A<Self> { unreachable!() }
    fn linspace(_: Self, _: Self, _: usize, _: bool) -> A<Self> { unreachable!() }
}
