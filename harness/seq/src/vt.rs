//! Values that can describe themselves to the specification.
//!
//! A type is described as a tree (see Layout.tla) and a value as a tree of its bytes; neither goes
//! through the code under test.
#![allow(dead_code)]
use std::marker::PhantomData;

use crabslab::{Array, Id, SlabItem};
use serde_json::{json, Value};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    /// Words that tend to hurt.
    pub fn word(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => self.below(6) as u32,
            4 => 1 << self.below(32),
            _ => (self.next() >> 20) as u32,
        }
    }
    /// Bit patterns with interesting borders.
    pub fn bits(&mut self, n: u32) -> u128 {
        let mask = if n == 128 { u128::MAX } else { (1 << n) - 1 };
        let full = (self.next() as u128) << 64 | self.next() as u128;
        let k = self.below(n as u64) as u32;
        mask & match self.below(10) {
            0 => 0,
            1 => u128::MAX,
            2 => 1 << k,
            3 => !(1 << k),
            4 => (1 << k) - 1,
            5 => u128::MAX << k,
            6 => (full as u32 as u128) << (32 * self.below(4)),
            7 => self.below(4) as u128,
            _ => full,
        }
    }
}

pub fn w(x: u32) -> i64 {
    x as i32 as i64
}
pub fn words(x: &[u32]) -> Vec<i64> {
    x.iter().map(|x| w(*x)).collect()
}

pub trait V: SlabItem {
    fn ty() -> Value;
    fn gen(r: &mut Rng) -> Self;
    fn js(&self) -> Value;
}

macro_rules! int {
    ($($t:ty, $n:expr, $s:expr;)*) => {$(
        impl V for $t {
            fn ty() -> Value { json!({"k":"i","n":$n,"s":$s}) }
            fn gen(r: &mut Rng) -> Self { r.bits($n * 8) as $t }
            fn js(&self) -> Value { json!(self.to_le_bytes()) }
        }
    )*};
}
int! {
    u8, 1, false; i8, 1, true; u16, 2, false; i16, 2, true; u32, 4, false; i32, 4, true;
    u64, 8, false; i64, 8, true; u128, 16, false; i128, 16, true;
}
impl V for f32 {
    fn ty() -> Value {
        json!({"k":"i","n":4,"s":false})
    }
    fn gen(r: &mut Rng) -> Self {
        match r.below(4) {
            1 => (r.below(20001) as f32 - 10000.0) / [1.0, 10.0, 100.0, 10000.0][r.below(4) as usize],
            0 => [0.0, -0.0, 1.0, -1.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-45]
                [r.below(10) as usize],
            _ => f32::from_bits(r.bits(32) as u32),
        }
    }
    fn js(&self) -> Value {
        json!(self.to_bits().to_le_bytes())
    }
}
impl V for f64 {
    fn ty() -> Value {
        json!({"k":"i","n":8,"s":false})
    }
    fn gen(r: &mut Rng) -> Self {
        match r.below(4) {
            1 => (r.below(20001) as f64 - 10000.0) / [1.0, 10.0, 100.0, 10000.0][r.below(4) as usize],
            0 => [0.0, -0.0, 1.0, -1.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324]
                [r.below(10) as usize],
            _ => f64::from_bits(r.bits(64) as u64),
        }
    }
    fn js(&self) -> Value {
        json!(self.to_bits().to_le_bytes())
    }
}
impl V for bool {
    fn ty() -> Value {
        json!({"k":"b"})
    }
    fn gen(r: &mut Rng) -> Self {
        r.below(2) == 1
    }
    fn js(&self) -> Value {
        json!(self)
    }
}
impl<T: std::any::Any> V for Id<T> {
    fn ty() -> Value {
        u32::ty()
    }
    fn gen(r: &mut Rng) -> Self {
        Id::new(u32::gen(r))
    }
    fn js(&self) -> Value {
        self.inner().js()
    }
}
impl<T: SlabItem> V for Array<T> {
    fn ty() -> Value {
        json!({"k":"t","ts":[u32::ty(), u32::ty()]})
    }
    fn gen(r: &mut Rng) -> Self {
        if r.below(6) == 0 {
            return Array::NONE;
        }
        Array::new(u32::gen(r), u32::gen(r))
    }
    fn js(&self) -> Value {
        json!([self.index.js(), self.len.js()])
    }
}
impl<T: V + Default> V for Option<T> {
    fn ty() -> Value {
        json!({"k":"o","t":T::ty()})
    }
    fn gen(r: &mut Rng) -> Self {
        (r.below(3) > 0).then(|| T::gen(r))
    }
    fn js(&self) -> Value {
        match self {
            None => json!([]),
            Some(x) => json!([x.js()]),
        }
    }
}
impl<T: V + Copy + Default, const N: usize> V for [T; N]
where
    [T; N]: Default,
{
    fn ty() -> Value {
        json!({"k":"a","n":N,"t":T::ty()})
    }
    fn gen(r: &mut Rng) -> Self {
        let mut a: [T; N] = Default::default();
        for x in a.iter_mut() {
            *x = T::gen(r);
        }
        a
    }
    fn js(&self) -> Value {
        self.iter().map(|x| x.js()).collect()
    }
}
impl<T: std::any::Any> V for PhantomData<T> {
    fn ty() -> Value {
        json!({"k":"p"})
    }
    fn gen(_: &mut Rng) -> Self {
        PhantomData
    }
    fn js(&self) -> Value {
        json!([])
    }
}
macro_rules! tup {
    ($($n:tt $t:ident),*) => {
        impl<$($t: V),*> V for ($($t,)*) {
            fn ty() -> Value { json!({"k":"t","ts":[$($t::ty()),*]}) }
            fn gen(r: &mut Rng) -> Self { ($($t::gen(r),)*) }
            fn js(&self) -> Value { json!([$(self.$n.js()),*]) }
        }
    };
}
tup!(0 A);
tup!(0 A, 1 B);
tup!(0 A, 1 B, 2 C);
tup!(0 A, 1 B, 2 C, 3 D);
tup!(0 A, 1 B, 2 C, 3 D, 4 E);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M);

macro_rules! vecs {
    ($($t:ty, $e:ty, $n:expr, $get:ident, $mk:ident, $gen:ident;)*) => {$(
        impl V for $t {
            fn ty() -> Value { json!({"k":"a","n":$n,"t":<$e>::ty()}) }
            fn gen(r: &mut Rng) -> Self { <$t>::$mk($gen(r)) }
            fn js(&self) -> Value { self.$get().js() }
        }
    )*};
}
/// A vector of a length that is almost one.
fn unit<const N: usize>(r: &mut Rng) -> [f32; N] {
    let mut a = [0.0f32; N];
    if r.below(4) == 0 {
        a[r.below(N as u64) as usize] = [1.0, -1.0][r.below(2) as usize];
    } else {
        a = std::array::from_fn(|_| r.below(2001) as f32 / 1000.0 - 1.0);
    }
    let l = a.iter().map(|x| x * x).sum::<f32>().sqrt().max(1e-3);
    let f = 1.0 + (r.below(9) as f32 - 4.0) * [0.0, 1e-7, 1e-6, 1e-5, 1e-4][r.below(5) as usize];
    a.map(|x| x / l * f)
}
/// Components that come from somewhere, or those of a direction.
fn floats<const N: usize>(r: &mut Rng) -> [f32; N]
where
    [f32; N]: V,
{
    if r.below(3) == 0 {
        unit(r)
    } else {
        <[f32; N]>::gen(r)
    }
}
fn ints<const N: usize>(r: &mut Rng) -> [u32; N]
where
    [u32; N]: V,
{
    <[u32; N]>::gen(r)
}
fn quat(a: [f32; 4]) -> glam::Quat {
    glam::Quat::from_array(a)
}
vecs! {
    glam::Vec2, f32, 2, to_array, from_array, floats;
    glam::Vec3, f32, 3, to_array, from_array, floats;
    glam::Vec4, f32, 4, to_array, from_array, floats;
    glam::UVec2, u32, 2, to_array, from_array, ints;
    glam::UVec3, u32, 3, to_array, from_array, ints;
    glam::UVec4, u32, 4, to_array, from_array, ints;
}
impl V for glam::Quat {
    fn ty() -> Value {
        json!({"k":"a","n":4,"t":f32::ty()})
    }
    fn gen(r: &mut Rng) -> Self {
        quat(floats(r))
    }
    fn js(&self) -> Value {
        json!([self.x.js(), self.y.js(), self.z.js(), self.w.js()])
    }
}
impl V for glam::Mat4 {
    fn ty() -> Value {
        json!({"k":"a","n":16,"t":f32::ty()})
    }
    fn gen(r: &mut Rng) -> Self {
        if r.below(3) == 0 {
            // something affine, or almost
            let c: [glam::Vec4; 4] = std::array::from_fn(|i| {
                let v = glam::Vec3::from_array(unit(r));
                v.extend(if i == 3 { 1.0 } else { 0.0 } + [0.0, 0.0, 1e-7, 1e-5][r.below(4) as usize])
            });
            return glam::Mat4::from_cols(c[0], c[1], c[2], c[3]);
        }
        glam::Mat4::from_cols_array(&<[f32; 16]>::gen(r))
    }
    fn js(&self) -> Value {
        self.to_cols_array().js()
    }
}

/// One value written somewhere over something and read back.
pub fn codec<T: V>(v: T, at: usize, old: Vec<u32>, r: &mut Rng) -> Value {
    let mut new = old.clone();
    let next = v.write_slab(at, &mut new);
    let back = T::read_slab(at, &new).js();
    // nothing but its own slots matters
    let size = T::SLAB_SIZE;
    let mut other = new.clone();
    for (i, x) in other.iter_mut().enumerate() {
        if i < at || i >= at + size {
            *x = r.word();
        }
    }
    let back2 = T::read_slab(at, &other).js();
    json!({"e":"codec","t":T::ty(),"size":size,"v":v.js(),"at":at,"next":next,
        "old":words(&old),"new":words(&new),"back":back,"back2":back2})
}
pub fn codec_random<T: V>(r: &mut Rng) -> Value {
    let v = T::gen(r);
    codec_of(v, r)
}
pub fn codec_of<T: V>(v: T, r: &mut Rng) -> Value {
    let before = r.below(5) as usize;
    let after = r.below(4) as usize;
    let fill = r.below(3);
    let old = (0..before + T::SLAB_SIZE + after)
        .map(|_| match fill {
            0 => 0,
            1 => u32::MAX,
            _ => r.word(),
        })
        .collect();
    codec(v, before, old, r)
}
