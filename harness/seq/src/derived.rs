//! Exercising derived items; the type definitions are generated.
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crabslab::{CpuSlab, Id, Slab, SlabItem};
use serde_json::{json, Value};

use crate::vt::*;

pub struct Out(BufWriter<std::fs::File>);
impl Out {
    fn guard(&mut self, f: impl FnOnce() -> Value) {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Value::Array(es)) => es.iter().for_each(|e| writeln!(self.0, "{e}").unwrap()),
            Ok(e) => writeln!(self.0, "{e}").unwrap(),
            Err(_) => writeln!(self.0, "{}", json!({"e":"panic","derived":1})).unwrap(),
        }
    }
}

pub fn many<T: V>(n: usize, r: &mut Rng, out: &mut Out) {
    for _ in 0..n {
        out.guard(|| {
            let mut e = codec_random::<T>(r);
            e["derived"] = std::any::type_name::<T>().into();
            e
        });
    }
}

/// Reading an enum with any tag.
pub fn tags<T: V + Default>(k: u32, n: usize, r: &mut Rng, out: &mut Out) {
    for i in 0..n as u32 {
        let tag = match i {
            0..=3 => k + i,
            4 => u32::MAX,
            5 => k.wrapping_neg(),
            6 => 1 << 31,
            _ if r.below(2) == 0 => r.word(),
            _ => r.below(k as u64) as u32,
        };
        out.guard(|| {
            let at = r.below(3) as usize;
            let mut slab: Vec<u32> = (0..at + T::SLAB_SIZE).map(|_| r.word()).collect();
            slab[at] = tag;
            json!({"e":"tag","t":T::ty(),"tag":w(tag),"back":T::read_slab(at, &slab).js(),"def":T::default().js(),
                "name":std::any::type_name::<T>()})
        });
    }
}

/// A field (of a field ...) of T through its offset.
pub fn field<T: V, F: V>(
    path: Value,
    off: u32,
    down: impl Fn(Id<T>) -> Id<F>,
    up: impl Fn(Id<T>) -> Id<F>,
    size: usize,
    get: impl Fn(&mut T) -> &mut F,
    n: usize,
    r: &mut Rng,
    out: &mut Out,
) {
    for _ in 0..2 + n / 6 {
        out.guard(|| {
            let base = r.below(5) as u32;
            let id = Id::<T>::new(base);
            let k = base as usize + T::SLAB_SIZE + r.below(3) as usize;
            let mut slab = CpuSlab::new((0..k).map(|_| r.word()).collect::<Vec<u32>>());
            let mut x = T::gen(r);
            slab.write(id, &x);
            let a = slab.read_unchecked(down(id)).js();
            let a0 = get(&mut x).js();
            let y = F::gen(r);
            let y0 = y.js();
            slab.write_indexed(&y, up(id).index());
            *get(&mut x) = y;
            let b = slab.read_unchecked(id).js();
            let c = slab.read_unchecked(up(id)).js();
            json!({"e":"off","t":T::ty(),"path":path,"off":off,"base":base,
                "ids":[w(down(id).inner()), w(up(id).inner())],"size":size,"ft":F::ty(),
                "v":[a, b, c],"field":[a0, x.js(), y0],"name":std::any::type_name::<T>()})
        });
    }
}

pub fn main(runs: &[fn(usize, &mut Rng, &mut Out)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut out = Out(BufWriter::new(std::fs::File::create(&a[2]).unwrap()));
    for line in std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        let p: Value = serde_json::from_str(&line.unwrap()).unwrap();
        out.0.flush().unwrap();
        let k = |x: &str| p[x].as_u64().unwrap();
        writeln!(out.0, "{}", json!({"e":"reset","p":p["p"],"m":[]})).unwrap();
        let mut r = Rng::new(k("p") ^ k("seed") << 32);
        runs[k("mod") as usize % runs.len()](k("n") as usize, &mut r, &mut out);
    }
    out.0.flush().unwrap();
}
