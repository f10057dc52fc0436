//! Slabs of words: codecs, reads and writes, growable slabs, ids and arrays.
mod vt;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufWriter, Write};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crabslab::offset::Offset;
use crabslab::{Array, CpuSlab, GrowableSlab, Id, Slab, SlabItem};
use serde_json::{json, Value};
use vt::*;

fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

macro_rules! types {
    ($f:ident, $i:expr, $a:tt, $($k:literal => $t:ty),* $(,)?) => {
        match $i { $($k => $f::<$t> $a,)* x => panic!("no type {x}") }
    };
}

macro_rules! with_type {
    ($f:ident, $i:expr, $($a:expr),*) => {
        types!($f, $i, ($($a),*),
            0 => u8, 1 => i8, 2 => u16, 3 => i16, 4 => u32, 5 => i32, 6 => u64, 7 => i64, 8 => u128, 9 => i128,
            10 => f32, 11 => f64, 12 => bool, 13 => Id<u32>, 14 => Array<u32>, 15 => PhantomData<u64>,
            16 => glam::Vec2, 17 => glam::Vec3, 18 => glam::Vec4, 19 => glam::UVec2, 20 => glam::UVec3,
            21 => glam::UVec4, 22 => glam::Quat, 23 => glam::Mat4,
            24 => Option<u8>, 25 => Option<i16>, 26 => Option<u32>, 27 => Option<i64>, 28 => Option<u128>, 29 => Option<bool>,
            30 => Option<Option<u32>>, 31 => Option<glam::Vec3>, 32 => Option<(u8, i64)>, 33 => Option<Id<u8>>,
            34 => Option<PhantomData<u8>>, 35 => Option<[i8; 3]>, 36 => Option<glam::Mat4>, 37 => Option<Option<Option<i8>>>,
            38 => [u8; 0], 39 => [i8; 1], 40 => [u16; 5], 41 => [i64; 2], 42 => [u128; 3], 43 => [bool; 4], 44 => [Option<u8>; 3],
            45 => [Option<Option<i64>>; 2], 46 => [glam::Vec3; 2], 47 => [[i16; 2]; 3], 48 => [(u8, i128); 2], 49 => [f64; 32],
            50 => (i8,), 51 => (u8, i64), 52 => (u64, i8, u16), 53 => (bool, f32, f64, i128),
            54 => (Option<u8>, u8, Option<u64>, i8, u32), 55 => (u8, u8, u8, u8, u8, i8),
            56 => (u32, i64, u32, i64, u8, bool, f32), 57 => (u8, u16, u32, u64, u128, i8, i16, i32),
            58 => (i64, i128, f64, bool, u8, u8, u8, u8, u64), 59 => (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64),
            60 => (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool),
            61 => (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, u128),
            62 => (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, u128, i128),
            63 => ((u8, i64), (i16, (u32, i8)), [u8; 2]), 64 => (PhantomData<u8>, u32, PhantomData<i64>),
            65 => (glam::Vec2, glam::Quat, u8), 66 => (Array<u64>, Id<u64>, u8), 67 => [Array<u8>; 2], 68 => [Id<u8>; 3],
            69 => Option<Array<f32>>, 70 => (Option<(Option<u8>, i64)>, u8), 71 => Option<(Option<u8>, Option<u64>)>,
            72 => [Option<(u8, Option<i64>)>; 2], 73 => (glam::UVec3, glam::UVec2, glam::UVec4, glam::Mat4, glam::Vec4),
            74 => [[[u8; 2]; 2]; 2], 75 => Option<[Option<u16>; 2]>, 76 => (u8, [i64; 0], u8), 77 => (Id<u8>,))
    };
}

macro_rules! with_small {
    ($f:ident, $i:expr, $($a:expr),*) => {
        types!($f, $i, ($($a),*),
            0 => u32, 1 => u64, 2 => glam::Vec3, 3 => PhantomData<u8>, 4 => i128, 5 => u8, 6 => bool, 7 => Option<i64>,
            8 => [u16; 5], 9 => (u8, i64), 10 => Array<u64>, 11 => Option<u8>, 12 => [PhantomData<u8>; 2], 13 => glam::Vec2,
            14 => i16, 15 => Id<u8>)
    };
}

// ------------------------------------------------------------------------------------- codecs
fn codec_many<T: V>(c: &Value, r: &mut Rng, out: &mut dyn Write) {
    for _ in 0..n(&c["n"]) {
        let rr = &mut *r;
        match catch_unwind(AssertUnwindSafe(|| codec_random::<T>(rr))) {
            Ok(e) => writeln!(out, "{e}").unwrap(),
            Err(_) => writeln!(out, "{}", json!({"e":"panic","t":T::ty()})).unwrap(),
        }
    }
}
/// Every value of the narrow types.
fn codec_all(c: &Value, r: &mut Rng, out: &mut dyn Write) {
    let (lo, hi) = (n(&c["lo"]), n(&c["hi"]));
    for x in lo..hi {
        let e = catch_unwind(AssertUnwindSafe(|| match n(&c["all"]) {
            0 => codec_of(x as u8, r),
            1 => codec_of(x as i8, r),
            2 => codec_of(x as u16, r),
            _ => codec_of(x as i16, r),
        }));
        match e {
            Ok(e) => writeln!(out, "{e}").unwrap(),
            Err(_) => writeln!(out, "{}", json!({"e":"panic","x":x})).unwrap(),
        }
    }
}

// ------------------------------------------------------------------------------ reads and writes
struct Mem {
    slice: Vec<u32>,
    vec: Vec<u32>,
    cpu: CpuSlab<Vec<u32>>,
    boxed: Box<[u32]>,
}
impl Mem {
    fn new(v: Vec<u32>) -> Self {
        Mem {
            slice: v.clone(),
            vec: v.clone(),
            cpu: CpuSlab::new(v.clone()),
            boxed: v.into_boxed_slice(),
        }
    }
    fn o(&self) -> Value {
        json!([words(&self.slice), words(&self.vec), words(self.cpu.as_ref()), words(&self.boxed)])
    }
    fn lens(&self) -> Value {
        json!([
            Slab::len(self.slice.as_slice()),
            Slab::len(&self.vec),
            Slab::len(&self.cpu),
            Slab::len(&*self.boxed)
        ])
    }
    fn empties(&self) -> Value {
        json!([
            Slab::is_empty(self.slice.as_slice()),
            Slab::is_empty(&self.vec),
            Slab::is_empty(&self.cpu),
            Slab::is_empty(&*self.boxed)
        ])
    }
}
macro_rules! each {
    ($m:ident, $s:ident => $x:expr) => {{
        let a = { let $s: &mut [u32] = &mut $m.slice; $x };
        let b = { let $s = &mut $m.vec; $x };
        let c = { let $s = &mut $m.cpu; $x };
        let d = { let $s: &mut [u32] = &mut $m.boxed; $x };
        [a, b, c, d]
    }};
}

fn id_of(v: &Value) -> u32 {
    v.as_i64().unwrap() as u32
}

fn mem_op<T: V + Default + Clone>(op: &[Value], m: &mut Mem, r: &mut Rng) -> Value {
    let at = id_of(&op[2]);
    let js = |v: &Vec<T>| v.iter().map(|x| x.js()).collect::<Value>();
    let mut e = match op[0].as_str().unwrap() {
        "w" => {
            let v = T::gen(r);
            let next = each!(m, s => s.write_indexed(&v, at as usize));
            json!({"e":"w","t":T::ty(),"vs":[v.js()],"at":w(at),"next":next})
        }
        "wid" => {
            let v = T::gen(r);
            each!(m, s => s.write(Id::<T>::new(at), &v));
            json!({"e":"w","t":T::ty(),"vs":[v.js()],"at":w(at),"next":[]})
        }
        "ws" => {
            let vs: Vec<T> = (0..n(&op[3])).map(|_| T::gen(r)).collect();
            let next = each!(m, s => s.write_indexed_slice(&vs, at as usize));
            json!({"e":"w","t":T::ty(),"vs":js(&vs),"at":w(at),"next":next})
        }
        "wa" => {
            let vs: Vec<T> = (0..n(&op[4])).map(|_| T::gen(r)).collect();
            let a = Array::<T>::new(at, n(&op[3]) as u32);
            each!(m, s => s.write_array(a, &vs));
            json!({"e":"wa","t":T::ty(),"vs":js(&vs),"at":w(at),"n":a.len,"next":[]})
        }
        "rd" => {
            let id = Id::<T>::new(at);
            let c = each!(m, s => Slab::contains(s, id));
            let v = each!(m, s => s.read(id).js());
            let size = T::SLAB_SIZE;
            let fits = m.vec.len() >= size && at as usize <= m.vec.len() - size;
            let u = if fits { each!(m, s => s.read_unchecked(id).js()).to_vec() } else { vec![] };
            json!({"e":"rd","t":T::ty(),"id":w(at),"c":c,"v":v,"u":u,"def":T::default().js()})
        }
        "ri" => {
            let x = T::gen(r);
            // not a checked read: the id is null or the item is there
            let at = if at == u32::MAX || at as usize + T::SLAB_SIZE <= m.vec.len() { at } else { u32::MAX };
            let id = Id::<T>::new(at);
            let v = each!(m, s => { let mut t = x.clone(); s.read_into_if_some(id, &mut t); t.js() });
            json!({"e":"ri","t":T::ty(),"id":w(at),"x":x.js(),"v":v})
        }
        "rv" => {
            let a = Array::<T>::new(at, n(&op[3]) as u32);
            let v = each!(m, s => js(&s.read_vec(a)));
            json!({"e":"rv","t":T::ty(),"id":w(at),"n":a.len,"v":v,"def":T::default().js()})
        }
        x => panic!("{x}"),
    };
    e["size"] = T::SLAB_SIZE.into();
    e["o"] = m.o();
    e["len"] = m.lens();
    e["empty"] = m.empties();
    e
}

fn panic_msg(x: Box<dyn std::any::Any + Send>) -> String {
    x.downcast_ref::<String>()
        .cloned()
        .or(x.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

fn mem(p: &Value, out: &mut dyn Write) {
    let r = &mut Rng::new(p["p"].as_u64().unwrap() ^ p["seed"].as_u64().unwrap_or(0) << 32);
    let init: Vec<u32> = (0..n(&p["mem"]))
        .map(|_| if p["zero"].as_bool() == Some(true) { 0 } else { r.word() })
        .collect();
    writeln!(out, "{}", json!({"e":"reset","p":p["p"],"m":words(&init)})).unwrap();
    let mut m = Mem::new(init);
    for op in p["ops"].as_array().unwrap() {
        let op = op.as_array().unwrap();
        let i = n(&op[1]);
        let e = catch_unwind(AssertUnwindSafe(|| with_small!(mem_op, i, op, &mut m, r)));
        match e {
            Ok(e) => writeln!(out, "{e}").unwrap(),
            Err(x) => {
                writeln!(out, "{}", json!({"e":"panic","op":op,"msg":panic_msg(x)})).unwrap();
                return;
            }
        }
    }
}

// ------------------------------------------------------------------------------- growable slabs
/// A growable slab that insists on the protocol: no growth beyond what was reserved.
struct Strict {
    v: Vec<u32>,
    cap: usize,
}
impl Slab for Strict {
    fn len(&self) -> usize {
        self.v.len()
    }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T {
        T::read_slab(id.index(), &self.v)
    }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
        t.write_slab(index, &mut self.v)
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], mut index: usize) -> usize {
        for x in t {
            index = x.write_slab(index, &mut self.v);
        }
        index
    }
}
impl GrowableSlab for Strict {
    fn capacity(&self) -> usize {
        self.cap
    }
    fn reserve_capacity(&mut self, c: usize) {
        self.cap = self.cap.max(c);
    }
    fn increment_len(&mut self, k: usize) -> usize {
        let old = self.v.len();
        assert!(old + k <= self.cap, "grown beyond its capacity");
        self.v.resize(old + k, 0);
        old
    }
}
trait Words {
    fn all(&self) -> Vec<u32>;
}
impl Words for Vec<u32> {
    fn all(&self) -> Vec<u32> {
        self.clone()
    }
}
impl Words for Strict {
    fn all(&self) -> Vec<u32> {
        self.v.clone()
    }
}
impl<B: Words> Words for CpuSlab<B> {
    fn all(&self) -> Vec<u32> {
        self.as_ref().all()
    }
}

fn grow_op<T: V + Default + Clone>(op: &[Value], r: &mut Rng, s: &mut dyn Dyn) -> Value {
    // generic methods cannot go through dyn
    match s.kind() {
        0 => grow_on::<T, Vec<u32>>(op, r, s.any().downcast_mut().unwrap()),
        1 => grow_on::<T, CpuSlab<Vec<u32>>>(op, r, s.any().downcast_mut().unwrap()),
        2 => grow_on::<T, Strict>(op, r, s.any().downcast_mut().unwrap()),
        _ => grow_on::<T, CpuSlab<Strict>>(op, r, s.any().downcast_mut().unwrap()),
    }
}
trait Dyn {
    fn kind(&self) -> usize;
    fn any(&mut self) -> &mut dyn std::any::Any;
}
struct D<S>(usize, S);
impl<S: 'static> Dyn for D<S> {
    fn kind(&self) -> usize {
        self.0
    }
    fn any(&mut self) -> &mut dyn std::any::Any {
        &mut self.1
    }
}

fn grow_on<T: V + Default + Clone, S: GrowableSlab + Words>(op: &[Value], r: &mut Rng, s: &mut S) -> Value {
    let cap0 = s.capacity();
    let js = |v: &Vec<T>| v.iter().map(|x| x.js()).collect::<Value>();
    let mut e = match op[0].as_str().unwrap() {
        "app" => {
            let v = T::gen(r);
            let id = s.append(&v);
            let back = s.read(id);
            json!({"e":"app","t":T::ty(),"vs":[v.js()],"id":w(id.inner()),"n":-1,"back":[back.js()]})
        }
        "apa" => {
            let vs: Vec<T> = (0..n(&op[2])).map(|_| T::gen(r)).collect();
            let a = s.append_array(&vs);
            let back = s.read_vec(a);
            json!({"e":"app","t":T::ty(),"vs":js(&vs),"id":w(a.index),"n":a.len,"back":js(&back)})
        }
        "al" => {
            let id = s.allocate::<T>();
            json!({"e":"al","t":T::ty(),"id":w(id.inner()),"n":-1,"k":1})
        }
        "ala" => {
            let k = n(&op[2]);
            let a = s.allocate_array::<T>(k);
            json!({"e":"al","t":T::ty(),"id":w(a.index),"n":a.len,"k":k})
        }
        "exp" => {
            let k = n(&op[2]);
            s.maybe_expand_to_fit::<T>(k);
            json!({"e":"exp","t":T::ty(),"k":k})
        }
        "res" => {
            let k = n(&op[2]);
            s.reserve_capacity(k);
            json!({"e":"res","k":k})
        }
        "inc" => {
            // the protocol: space first
            let k = n(&op[2]);
            s.maybe_expand_to_fit::<u32>(k);
            let i = s.increment_len(k);
            json!({"e":"inc","k":k,"r":i})
        }
        // write over what is there: position as a fraction of the length
        "w" => {
            let room = Slab::len(s).checked_sub(T::SLAB_SIZE);
            match room {
                None => return Value::Null,
                Some(room) => {
                    let at = n(&op[2]) % (room + 1);
                    let v = T::gen(r);
                    let next = s.write_indexed(&v, at);
                    json!({"e":"w","t":T::ty(),"vs":[v.js()],"at":at,"next":[next]})
                }
            }
        }
        x => panic!("{x}"),
    };
    let o = s.all();
    e["size"] = T::SLAB_SIZE.into();
    e["o"] = json!([words(&o)]);
    e["len"] = json!([Slab::len(s)]);
    e["empty"] = json!([Slab::is_empty(s)]);
    e["cap"] = s.capacity().into();
    e["cap0"] = cap0.into();
    e
}

fn grow(p: &Value, out: &mut dyn Write) {
    let r = &mut Rng::new(p["p"].as_u64().unwrap() ^ p["seed"].as_u64().unwrap_or(0) << 32);
    let k = n(&p["grow"]);
    let init: Vec<u32> = (0..n(&p["init"])).map(|_| r.word()).collect();
    let extra = n(&p["cap"]);
    writeln!(out, "{}", json!({"e":"reset","p":p["p"],"m":words(&init)})).unwrap();
    let mut v = Vec::with_capacity(init.len() + extra);
    v.extend_from_slice(&init);
    let cap = init.len() + extra;
    let mut s: Box<dyn Dyn> = match k {
        0 => Box::new(D(0, v)),
        1 => Box::new(D(1, CpuSlab::new(v))),
        2 => Box::new(D(2, Strict { v, cap })),
        _ => Box::new(D(3, CpuSlab::new(Strict { v, cap }))),
    };
    for op in p["ops"].as_array().unwrap() {
        let op = op.as_array().unwrap();
        let i = n(&op[1]);
        let e = catch_unwind(AssertUnwindSafe(|| with_small!(grow_op, i, op, r, &mut *s)));
        match e {
            Ok(Value::Null) => {}
            Ok(e) => writeln!(out, "{e}").unwrap(),
            Err(x) => {
                writeln!(out, "{}", json!({"e":"panic","op":op,"msg":panic_msg(x)})).unwrap();
                return;
            }
        }
    }
    if k == 1 {
        let mut t = CpuSlab::new(vec![]);
        std::mem::swap(s.any().downcast_mut::<CpuSlab<Vec<u32>>>().unwrap(), &mut t);
        t.as_mut().push(7);
        let v = t.into_inner();
        writeln!(out, "{}", json!({"e":"inner","o":[words(&v)]})).unwrap();
    }
}

// --------------------------------------------------------------------------------- ids and arrays
fn hash(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ids(q: &Value) -> Value {
    let (a, b, k) = (id_of(&q[0]), id_of(&q[1]), id_of(&q[2]));
    let (x, y) = (Id::<glam::Vec3>::new(a), Id::<glam::Vec3>::from(b as usize));
    let o = || Offset::<u64, glam::Vec3>::new(k as usize);
    let z: Array<glam::Vec3> = x.into();
    json!({"e":"ids","a":w(a),"b":w(b),"k":w(k),
        "eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "cmp": x.cmp(&y) as i8,
        "pc": x.partial_cmp(&y).map(|o| o as i8),
        "hash": hash(x) == hash(a), "h2": (hash(x) == hash(y)),
        "none": x.is_none(), "some": x.is_some(),
        "conv": [w(x.inner()), w(x.index() as u32), w(u32::from(x)), w(Id::<u8>::from(a).inner()),
                 w(Id::<u8>::from(a as usize).inner()), w(x.clone().inner())],
        "add": [w((x + k).inner()), w((k + x).inner()), w((x + k as usize).inner()), w((k as usize + x).inner()),
                w((x + o()).inner()), w((o() + x).inner())],
        "off": [w(Id::<u64>::from(o()).inner()), w(o().offset)],
        "arr": [w(z.index), w(z.len)],
        "nul": [w(Id::<u8>::NONE.inner()), w(Id::<u8>::default().inner())],
        "max": [w(x.max(y).inner()), w(x.min(y).inner())]})
}
fn arr<T: V>(q: &Value, r: &mut Rng) -> Value {
    let (a, l) = (id_of(&q[1]), id_of(&q[2]));
    let x = Array::<T>::new(a, l);
    let (big, lu) = (1usize << 32, l as usize);
    let beyond = [lu, lu + 1, lu + 7, 1 << 20, u32::MAX as usize, usize::MAX, big, big + 1, big + lu, big + lu / 2,
        big * 2 + 1, big << 8, big + lu.saturating_sub(1), usize::MAX / 2 + 1, usize::MAX - 1];
    let u = x.into_u32_array();
    let mut slab_len = 0;
    let mut slab = vec![];
    let mut sub = json!([]);
    let has_sub = a == u32::MAX || (a as usize) < (1 << 12);
    if has_sub {
        slab_len = if a == u32::MAX { 3 } else { a as usize + l as usize * T::SLAB_SIZE + r.below(3) as usize };
        slab = (0..slab_len).map(|_| r.word()).collect::<Vec<_>>();
        sub = json!(words(x.sub_slab(&slab)));
    }
    let it: Vec<i64> = x.iter().take(5000).map(|i| w(i.inner())).collect();
    let mut rest = x.iter();
    let skip = r.below(l as u64 + 2) as usize;
    for _ in 0..skip {
        rest.next();
    }
    let rest: Vec<i64> = rest.take(5000).map(|i| w(i.inner())).collect();
    let mut done = x.iter();
    for _ in 0..l {
        done.next();
    }
    let over = [done.next().is_none(), done.next().is_none()];
    // other ways to go through the ids
    let step = [r.below(4) as usize, 1 + r.below(3) as usize];
    let stepped: Vec<i64> = x.iter().skip(step[0]).step_by(step[1]).take(5000).map(|i| w(i.inner())).collect();
    let mut it2 = x.iter();
    let first = it2.next().is_some();
    let hint = it2.size_hint();
    let k = r.below(l as u64 + 2) as usize;
    let nth = it2.nth(k);
    let after = it2.next();
    let ids = |i: Option<Id<T>>| i.map(|i| w(i.inner())).into_iter().collect::<Vec<_>>();
    let (nth, after) = (ids(nth), ids(after));
    let (count, last) = if l < 5000 { (x.iter().count(), ids(x.iter().last())) } else { (l as usize, vec![]) };
    // slots around the array's ends, and whether it contains them
    let (b0, b1) = (u.index as i64, u.index as i64 + u.len as i64);
    let probe: Vec<i64> = [b0 - 1, b0, (b0 + b1) / 2, b1 - 1, b1, b1 + 1, 0]
        .into_iter()
        .filter(|i| (0..=u32::MAX as i64).contains(i))
        .collect();
    let cont: Vec<Value> = probe
        .iter()
        .map(|&i| json!([(i - b0).max(-9), u.contains_index(i as usize)]))
        .collect();
    json!({"e":"arr","cont":cont,"step":step,"stepped":stepped,"first":first,"hint":[hint.0, hint.1.unwrap_or(1 << 20).min(1 << 20)],
        "k":k,"nth":nth,"after":after,"count":count,"last":last,"size":T::SLAB_SIZE,"t":T::ty(),"a":w(a),"l":l,
        "at": (0..l as usize).map(|i| w(x.at(i).inner())).collect::<Vec<_>>(),
        "beyond": beyond.iter().map(|i| w(x.at(*i).inner())).collect::<Vec<_>>(),
        "iter": it, "skip": skip, "rest": rest, "over": over,
        "u": [w(u.index), w(u.len)], "ulist": u.iter().take(5000).map(|i| w(i.inner())).collect::<Vec<_>>(),
        "len": x.len(), "empty": x.is_empty(), "null": x.is_null(), "start": w(x.starting_index() as u32),
        "eq": [x == Array::new(a, l), x == Array::new(a, l.wrapping_add(1)), x == Array::new(a.wrapping_add(1), l)],
        "nul": [w(Array::<T>::NONE.index), w(Array::<T>::NONE.len), w(Array::<T>::default().index), w(Array::<T>::default().len)],
        "nulls": [Array::<T>::NONE.is_null(), Array::<T>::default().is_null(), Array::<T>::NONE.is_empty()],
        "has": has_sub, "slab": words(&slab[..slab_len]), "sub": sub})
}
fn union(q: &Value) -> Value {
    let v: Vec<u32> = q.as_array().unwrap().iter().map(id_of).collect();
    let mut x = Array::<u32>::new(v[0], v[1]);
    let y = Array::<u32>::new(v[2], v[3]);
    x.union(&y);
    json!({"e":"union","q":v,"r":[w(x.index), w(x.len)]})
}
fn addr(p: &Value, out: &mut dyn Write) {
    let r = &mut Rng::new(p["p"].as_u64().unwrap() ^ p["seed"].as_u64().unwrap_or(0) << 32);
    writeln!(out, "{}", json!({"e":"reset","p":p["p"],"m":[]})).unwrap();
    for q in p["addr"].as_array().unwrap() {
        let e = catch_unwind(AssertUnwindSafe(|| match q["k"].as_str().unwrap() {
            "ids" => ids(&q["q"]),
            "union" => union(&q["q"]),
            _ => {
                let i = n(&q["q"][0]);
                with_small!(arr, i, &q["q"], r)
            }
        }));
        match e {
            Ok(e) => writeln!(out, "{e}").unwrap(),
            Err(x) => writeln!(out, "{}", json!({"e":"panic","op":q,"msg":panic_msg(x)})).unwrap(),
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for line in std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        out.flush().unwrap();
        let p: Value = serde_json::from_str(&line.unwrap()).unwrap();
        if let Some(c) = p.get("codec") {
            writeln!(out, "{}", json!({"e":"reset","p":p["p"],"m":[]})).unwrap();
            let r = &mut Rng::new(p["p"].as_u64().unwrap() ^ p["seed"].as_u64().unwrap_or(0) << 32);
            if c.get("all").is_some() {
                codec_all(c, r, &mut out);
            } else {
                let i = n(&c["ty"]);
                with_type!(codec_many, i, c, r, &mut out);
            }
        } else if p.get("mem").is_some() {
            mem(&p, &mut out);
        } else if p.get("grow").is_some() {
            grow(&p, &mut out);
        } else {
            addr(&p, &mut out);
        }
    }
    out.flush().unwrap();
}
