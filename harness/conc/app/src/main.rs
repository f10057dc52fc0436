//! Runs multi-threaded programs on the real allocator under controlled schedules and writes every
//! distinct history.  Usage: conc PROGRAMS HISTORIES
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap, HashSet},
    hash::{DefaultHasher, Hash, Hasher},
    io::Write,
    sync::{Mutex, OnceLock},
    time::Instant,
};

use craballoc::{
    runtime::{CpuRuntime, IsRuntime, SlabUpdate, VecSlab},
    slab::{SlabAllocator, SlabAllocatorError, SlabBuffer},
    value::{Gpu, GpuArray, Hybrid, HybridArray, WeakGpu, WeakHybrid},
};
use crabslab::SlabItem;
use serde_json::{json, Value};
use shuttle::{
    scheduler::{PctScheduler, RandomScheduler, Schedule, Scheduler, Task, TaskId},
    thread, Config, FailurePersistence, Runner,
};
use vstd::{vstd_active, vstd_switch as sw};

// ---------------------------------------------------------------- the history being recorded

#[derive(Default)]
struct Log {
    ev: Vec<Value>,
    threads: HashMap<thread::ThreadId, usize>,
    buffers: usize,
    open: HashMap<usize, usize>,
}
static LOG: Mutex<Option<Log>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    let mut g = LOG.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Log::default))
}
fn me(l: &Log) -> usize {
    *l.threads.get(&thread::current().id()).unwrap_or(&99)
}
fn call(v: Value) {
    with(|l| {
        let t = me(l);
        let mut v = v;
        v["k"] = json!("call");
        v["t"] = json!(t);
        l.open.insert(t, l.ev.len());
        l.ev.push(v);
    })
}
/// The call returned: its results go to the event of the call.
fn ret(results: Value) {
    ret_with(results, None)
}
fn ret_with(results: Value, m: Option<&[u32]>) {
    with(|l| {
        let t = me(l);
        let i = l.open.remove(&t).expect("no open call");
        for (k, v) in results.as_object().unwrap() {
            l.ev[i][k] = v.clone();
        }
        let mut e = json!({"k": "ret", "t": t});
        if let Some(m) = m {
            e["m"] = words(m);
        }
        l.ev.push(e);
    })
}
fn words(m: &[u32]) -> Value {
    // TLC's numbers are 32 bit signed
    json!(m.iter().map(|w| (*w & 0x7fff_ffff) as i64).collect::<Vec<_>>())
}

// ---------------------------------------------------------------- values

const TAG: u32 = 8;

/// A value `v` whose k-th word is `v * 8 + k`, with scheduling points wherever user code runs.
struct W<const N: usize>([u32; N]);

impl<const N: usize> W<N> {
    fn of(v: i64) -> Self {
        W(std::array::from_fn(|k| v as u32 * TAG + k as u32))
    }
    fn val(&self) -> i64 {
        let v = self.0[0] / TAG;
        for k in 0..N {
            if self.0[k] != v * TAG + k as u32 {
                return -2;
            }
        }
        v as i64
    }
    fn assign(&mut self, v: i64) {
        for k in 0..N {
            sw();
            self.0[k] = v as u32 * TAG + k as u32;
        }
    }
}
impl<const N: usize> Clone for W<N> {
    fn clone(&self) -> Self {
        let mut w = [0; N];
        for k in 0..N {
            if k > 0 {
                sw();
            }
            w[k] = self.0[k];
        }
        W(w)
    }
}
impl<const N: usize> Default for W<N> {
    fn default() -> Self {
        W([0; N])
    }
}
impl<const N: usize> SlabItem for W<N> {
    const SLAB_SIZE: usize = N;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        W(std::array::from_fn(|k| slab[index + k]))
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        if slab.len() < index + N {
            return index;
        }
        for k in 0..N {
            if k > 0 {
                sw();
            }
            slab[index + k] = self.0[k];
        }
        index + N
    }
}

// ---------------------------------------------------------------- the runtime

#[derive(Clone)]
struct Rec;
impl AsRef<Rec> for Rec {
    fn as_ref(&self) -> &Rec {
        self
    }
}
struct RecBuf {
    id: usize,
    inner: VecSlab,
}
impl Drop for RecBuf {
    fn drop(&mut self) {
        let id = self.id;
        with(|l| l.ev.push(json!({"k": "bd", "b": id})));
    }
}
impl RecBuf {
    fn peek(&self) {
        let m = self.inner.as_vec();
        with(|l| {
            let t = me(l);
            l.ev.push(json!({"k": "peek", "t": t, "b": self.id, "m": words(&m)}));
        });
    }
}
impl IsRuntime for Rec {
    type Buffer = RecBuf;
    type BufferUsages = ();

    fn buffer_create(&self, capacity: usize, label: Option<&str>, _: ()) -> RecBuf {
        let inner = CpuRuntime.buffer_create(capacity, label, ());
        let id = with(|l| {
            l.buffers += 1;
            let t = me(l);
            l.ev.push(json!({"k": "bc", "t": t, "b": l.buffers, "n": capacity}));
            l.buffers
        });
        RecBuf { id, inner }
    }
    fn buffer_copy(&self, s: &RecBuf, d: &RecBuf, label: Option<&str>) {
        with(|l| {
            let t = me(l);
            l.ev.push(json!({"k": "cs", "t": t, "b": s.id}));
        });
        CpuRuntime.buffer_copy(&s.inner, &d.inner, label);
        let m = d.inner.as_vec();
        with(|l| {
            let t = me(l);
            l.ev.push(json!({"k": "cp", "t": t, "b": d.id, "m": words(&m)}));
        });
    }
    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, updates: U, b: &RecBuf) {
        let us: Vec<SlabUpdate> = updates.collect();
        let n = b.inner.as_vec().len();
        with(|l| {
            let t = me(l);
            let end = us.iter().map(|u| u.array.starting_index() as u64 + u.elements.len() as u64).max().unwrap_or(0);
            l.ev.push(json!({"k": "bw", "t": t, "b": b.id, "n": n, "end": end.min(1 << 30)}));
        });
        CpuRuntime.buffer_write(us.into_iter(), &b.inner);
        b.peek();
    }
    async fn buffer_read(
        &self,
        b: &RecBuf,
        n: usize,
        r: impl std::ops::RangeBounds<usize>,
    ) -> Result<Vec<u32>, SlabAllocatorError> {
        CpuRuntime.buffer_read(&b.inner, n, r).await
    }
}

type Slab = SlabAllocator<Rec>;
type Buf = SlabBuffer<RecBuf>;

// ---------------------------------------------------------------- handles

/// What a handle can do; everything else is skipped.
trait Handle: Send {
    fn cpu(&self) -> bool {
        false
    }
    fn strong(&self) -> bool {
        true
    }
    fn array(&self) -> bool {
        false
    }
    /// Assign, without an answer.
    fn set(&self, _i: usize, _v: i64) -> bool {
        false
    }
    /// Assign, telling the old value.
    fn modify(&self, _i: usize, _v: i64) -> Option<Option<i64>> {
        None
    }
    fn replace(&self, _i: usize, _v: i64) -> Option<Option<i64>> {
        None
    }
    fn lock(&self, _v: i64) -> Option<i64> {
        None
    }
    fn look(&self) -> Option<i64> {
        None
    }
    fn get(&self, _i: usize) -> Option<Option<i64>> {
        None
    }
    fn getv(&self) -> Option<Vec<i64>> {
        None
    }
    fn dup(&self) -> Box<dyn Handle>;
    fn gpu(self: Box<Self>) -> Box<dyn Handle>;
    fn weak(&self) -> Option<Box<dyn Handle>> {
        None
    }
    fn weakg(&self) -> Option<Box<dyn Handle>> {
        None
    }
    fn up(&self) -> Option<Option<Box<dyn Handle>>> {
        None
    }
    fn rc(&self) -> Option<usize> {
        None
    }
}

impl<const N: usize> Handle for Hybrid<W<N>> {
    fn cpu(&self) -> bool {
        true
    }
    fn set(&self, _: usize, v: i64) -> bool {
        Hybrid::set(self, W::of(v));
        true
    }
    fn modify(&self, _: usize, v: i64) -> Option<Option<i64>> {
        Some(Some(Hybrid::modify(self, |w| {
            let old = w.val();
            w.assign(v);
            old
        })))
    }
    fn lock(&self, v: i64) -> Option<i64> {
        let mut g = Hybrid::lock(self);
        let old = g.val();
        g.assign(v);
        Some(old)
    }
    fn look(&self) -> Option<i64> {
        let g = Hybrid::lock(self);
        sw();
        Some(g.val())
    }
    fn get(&self, _: usize) -> Option<Option<i64>> {
        Some(Some(Hybrid::get(self).val()))
    }
    fn dup(&self) -> Box<dyn Handle> {
        Box::new(self.clone())
    }
    fn gpu(self: Box<Self>) -> Box<dyn Handle> {
        Box::new(self.into_gpu_only())
    }
    fn weak(&self) -> Option<Box<dyn Handle>> {
        Some(Box::new(WeakHybrid::from_hybrid(self)))
    }
    fn weakg(&self) -> Option<Box<dyn Handle>> {
        Some(Box::new(WeakHybrid::from_hybrid(self).weak_gpu().clone()))
    }
    fn rc(&self) -> Option<usize> {
        Some(self.ref_count())
    }
}
impl<const N: usize> Handle for Gpu<W<N>> {
    fn set(&self, _: usize, v: i64) -> bool {
        Gpu::set(self, W::of(v));
        true
    }
    fn dup(&self) -> Box<dyn Handle> {
        Box::new(self.clone())
    }
    fn gpu(self: Box<Self>) -> Box<dyn Handle> {
        self
    }
    fn weakg(&self) -> Option<Box<dyn Handle>> {
        Some(Box::new(WeakGpu::from_gpu(self)))
    }
}
impl<const N: usize> Handle for WeakHybrid<W<N>> {
    fn cpu(&self) -> bool {
        true
    }
    fn strong(&self) -> bool {
        false
    }
    fn dup(&self) -> Box<dyn Handle> {
        Box::new(self.clone())
    }
    fn gpu(self: Box<Self>) -> Box<dyn Handle> {
        self
    }
    fn weakg(&self) -> Option<Box<dyn Handle>> {
        Some(Box::new(self.weak_gpu().clone()))
    }
    fn up(&self) -> Option<Option<Box<dyn Handle>>> {
        Some(self.upgrade().map(|h| Box::new(h) as Box<dyn Handle>))
    }
    fn rc(&self) -> Option<usize> {
        Some(self.strong_count())
    }
}
impl<const N: usize> Handle for WeakGpu<W<N>> {
    fn strong(&self) -> bool {
        false
    }
    fn dup(&self) -> Box<dyn Handle> {
        Box::new(self.clone())
    }
    fn gpu(self: Box<Self>) -> Box<dyn Handle> {
        self
    }
    fn up(&self) -> Option<Option<Box<dyn Handle>>> {
        Some(self.upgrade().map(|h| Box::new(h) as Box<dyn Handle>))
    }
}
impl<const N: usize> Handle for HybridArray<W<N>> {
    fn array(&self) -> bool {
        true
    }
    fn cpu(&self) -> bool {
        true
    }
    fn set(&self, i: usize, v: i64) -> bool {
        let _ = self.set_item(i, W::of(v));
        true
    }
    fn modify(&self, i: usize, v: i64) -> Option<Option<i64>> {
        Some(HybridArray::modify(self, i, |w| {
            let old = w.val();
            w.assign(v);
            old
        }))
    }
    fn replace(&self, i: usize, v: i64) -> Option<Option<i64>> {
        Some(self.set_item(i, W::of(v)).map(|w| w.val()))
    }
    fn get(&self, i: usize) -> Option<Option<i64>> {
        Some(HybridArray::get(self, i).map(|w| w.val()))
    }
    fn getv(&self) -> Option<Vec<i64>> {
        Some(self.get_vec().iter().map(|w| w.val()).collect())
    }
    fn dup(&self) -> Box<dyn Handle> {
        Box::new(self.clone())
    }
    fn gpu(self: Box<Self>) -> Box<dyn Handle> {
        Box::new(self.into_gpu_only())
    }
    fn rc(&self) -> Option<usize> {
        Some(self.ref_count())
    }
}
impl<const N: usize> Handle for GpuArray<W<N>> {
    fn array(&self) -> bool {
        true
    }
    fn set(&self, i: usize, v: i64) -> bool {
        self.set_item(i, &W::of(v));
        true
    }
    fn dup(&self) -> Box<dyn Handle> {
        Box::new(self.clone())
    }
    fn gpu(self: Box<Self>) -> Box<dyn Handle> {
        self
    }
}

/// Creates a handle; answers where its slots start (-1 for none).
fn create<const N: usize>(slab: &Slab, kind: &str, vs: &[i64]) -> (Box<dyn Handle>, i64) {
    let ws = || vs.iter().map(|v| W::<N>::of(*v)).collect::<Vec<_>>();
    let start = |i: usize| if i == u32::MAX as usize { -1 } else { i as i64 };
    match kind {
        "h" => {
            let h = slab.new_value(W::<N>::of(vs[0]));
            let s = start(h.id().index());
            (Box::new(h), s)
        }
        "g" => {
            let h = Gpu::new(slab, W::<N>::of(vs[0]));
            let s = start(h.id().index());
            (Box::new(h), s)
        }
        "ha" => {
            let h = slab.new_array(ws());
            let s = if h.array().is_null() { -1 } else { h.array().starting_index() as i64 };
            (Box::new(h), s)
        }
        _ => {
            let h = GpuArray::new(slab, &ws());
            let s = if h.array().is_null() { -1 } else { h.array().starting_index() as i64 };
            (Box::new(h), s)
        }
    }
}

struct Obj {
    h: Box<dyn Handle>,
    o: i64,
    n: usize,
}
enum Var {
    Obj(Obj),
    Buf(Buf),
}
#[derive(Default)]
struct Env {
    vars: BTreeMap<i64, Var>,
    top: i64,
}

fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or(-1)
}

impl Env {
    fn obj(&self, x: &Value) -> Option<&Obj> {
        match self.vars.get(&int(x)) {
            Some(Var::Obj(o)) => Some(o),
            _ => None,
        }
    }
    fn take_obj(&mut self, x: &Value) -> Option<Obj> {
        if self.obj(x).is_none() {
            return None;
        }
        match self.vars.remove(&int(x)) {
            Some(Var::Obj(o)) => Some(o),
            _ => None,
        }
    }
    fn buf(&self, x: &Value) -> Option<&Buf> {
        match self.vars.get(&int(x)) {
            Some(Var::Buf(b)) => Some(b),
            _ => None,
        }
    }
    fn put(&mut self, x: &Value, h: Box<dyn Handle>, o: i64, n: usize) {
        self.vars.insert(int(x), Var::Obj(Obj { h, o, n }));
    }

    fn new(&mut self, slab: &Slab, x: &Value, o: i64, w: usize, kind: &str, vs: Vec<i64>) {
        call(json!({"op": "new", "o": o, "w": w, "n": vs.len(), "vs": vs, "c": kind.starts_with('h')}));
        let (h, st) = match w {
            1 => create::<1>(slab, kind, &vs),
            2 => create::<2>(slab, kind, &vs),
            _ => create::<3>(slab, kind, &vs),
        };
        ret(json!({"st": st}));
        self.top = self.top.max(st + (w * vs.len()) as i64);
        self.put(x, h, o, vs.len());
    }
    fn drop_var(&mut self, x: &Value) {
        match self.vars.remove(&int(x)) {
            Some(Var::Obj(o)) if o.h.strong() => {
                call(json!({"op": "drop", "o": o.o, "c": o.h.cpu()}));
                drop(o);
                ret(json!({}));
            }
            Some(v) => {
                // weak handles and buffer handles
                call(json!({"op": "nop"}));
                drop(v);
                ret(json!({}));
            }
            None => {}
        }
    }
    fn commit(&mut self, slab: &Slab, x: &Value) {
        // keep whatever handle `x` was out of the call
        self.drop_var(x);
        call(json!({"op": "commit"}));
        let b = slab.commit();
        {
            let m = b.inner.as_vec();
            ret_with(json!({"b": b.id, "ct": b.creation_time()}), Some(&m));
        }
        self.vars.insert(int(x), Var::Buf(b));
    }

    fn op(&mut self, slab: &Slab, op: &Value) {
        let name = op[0].as_str().unwrap();
        let x = &op[1];
        match name {
            "new" => {
                let vs: Vec<i64> = op[4].as_array().unwrap().iter().map(int).collect();
                self.new(slab, x, int(&op[2]), int(&op[3]) as usize, op[5].as_str().unwrap(), vs);
            }
            "set" | "mod" | "rep" | "lock" => {
                let Some(s) = self.obj(x) else { return };
                let (i, v) = (if s.h.array() { int(&op[2]) as usize } else { 0 }, int(&op[3]));
                if !s.h.strong() {
                    return;
                }
                if i >= s.n {
                    // out of range: nothing may happen
                    call(json!({"op": "nop"}));
                    let r = match name {
                        "mod" => s.h.modify(i, v).flatten(),
                        "rep" => s.h.replace(i, v).flatten(),
                        _ => {
                            s.h.set(i, v);
                            None
                        }
                    };
                    assert!(r.is_none(), "an answer for an item that does not exist");
                    ret(json!({}));
                    return;
                }
                call(json!({"op": "set", "o": s.o, "e": i + 1, "v": v, "c": s.h.cpu(), "old": -1}));
                let old = match name {
                    "mod" => s.h.modify(i, v),
                    "rep" => s.h.replace(i, v),
                    "lock" => s.h.lock(v).map(Some),
                    _ => None,
                };
                match old {
                    Some(old) => ret(json!({"old": old.unwrap_or(-3)})),
                    None => {
                        s.h.set(i, v);
                        ret(json!({}));
                    }
                }
            }
            "get" | "look" => {
                let Some(s) = self.obj(x) else { return };
                let i = if s.h.array() { int(&op[2]) as usize } else { 0 };
                if !s.h.strong() || !s.h.cpu() || i >= s.n {
                    return;
                }
                call(json!({"op": "get", "o": s.o, "e": i + 1}));
                let r = if name == "look" { s.h.look().map(Some) } else { None };
                let r = r.or_else(|| s.h.get(i));
                ret(json!({"res": r.flatten().unwrap_or(-3)}));
            }
            "getv" => {
                let Some(s) = self.obj(x) else { return };
                if !s.h.strong() || !s.h.cpu() {
                    return;
                }
                call(json!({"op": "getv", "o": s.o}));
                let r = s.h.getv().unwrap_or_else(|| vec![s.h.get(0).flatten().unwrap_or(-3)]);
                ret(json!({"res": r}));
            }
            "clone" => match self.vars.get(&int(x)) {
                Some(Var::Obj(s)) => {
                    let (o, n) = (s.o, s.n);
                    if s.h.strong() {
                        call(json!({"op": "clone", "o": o, "c": s.h.cpu()}));
                    } else {
                        call(json!({"op": "nop"}));
                    }
                    let h = s.h.dup();
                    ret(json!({}));
                    self.put(&op[2], h, o, n);
                }
                Some(Var::Buf(b)) => {
                    let b = b.clone();
                    self.vars.insert(int(&op[2]), Var::Buf(b));
                }
                None => {}
            },
            "drop" => self.drop_var(x),
            "gpu" => {
                let Some(s) = self.take_obj(x) else { return };
                let Obj { h, o, n } = s;
                let h = if h.strong() && h.cpu() {
                    call(json!({"op": "gpu", "o": o}));
                    let h = h.gpu();
                    ret(json!({}));
                    h
                } else {
                    h
                };
                self.put(x, h, o, n);
            }
            "weak" | "weakg" => {
                let Some(s) = self.obj(x) else { return };
                let (o, n) = (s.o, s.n);
                call(json!({"op": "nop"}));
                let w = if name == "weak" { s.h.weak() } else { None };
                let w = w.or_else(|| s.h.weakg());
                ret(json!({}));
                if let Some(w) = w {
                    self.put(&op[2], w, o, n);
                }
            }
            "up" => {
                let Some(s) = self.obj(x) else { return };
                if s.h.strong() {
                    return;
                }
                let (o, n) = (s.o, s.n);
                call(json!({"op": "up", "o": o, "c": s.h.cpu()}));
                let r = s.h.up().flatten();
                ret(json!({"ok": r.is_some()}));
                if let Some(h) = r {
                    self.put(&op[2], h, o, n);
                }
            }
            "rc" => {
                let Some(s) = self.obj(x) else { return };
                let o = s.o;
                call(json!({"op": "rc", "o": o}));
                match s.h.rc() {
                    Some(n) => ret(json!({"res": n})),
                    None => ret(json!({"res": -1})),
                }
            }
            "commit" => self.commit(slab, x),
            "getb" => {
                self.drop_var(x);
                call(json!({"op": "getb"}));
                match slab.get_buffer() {
                    Some(b) => {
                        ret(json!({"b": b.id, "ct": b.creation_time()}));
                        self.vars.insert(int(x), Var::Buf(b));
                    }
                    None => ret(json!({"b": 0, "ct": 0})),
                }
            }
            "upd" => {
                let Some(Var::Buf(b)) = self.vars.get_mut(&int(x)) else { return };
                call(json!({"op": "upd", "hb": b.id}));
                let r = b.update_if_invalid();
                ret(json!({"ok": r, "b": b.id, "ct": b.creation_time()}));
            }
            "val" => {
                let Some(b) = self.buf(x) else { return };
                call(json!({"op": "val", "hb": b.id}));
                let r = b.is_valid();
                ret(json!({"ok": r}));
            }
            "peek" => {
                let Some(b) = self.buf(x) else { return };
                b.peek();
            }
            "hasq" => {
                call(json!({"op": "hasq"}));
                let r = slab.has_queued_updates();
                ret(json!({"ok": r}));
            }
            "ids" => {
                call(json!({"op": "nop"}));
                let _ = slab.get_updated_source_ids();
                ret(json!({}));
            }
            "defrag" => {
                call(json!({"op": "nop"}));
                slab.defrag();
                ret(json!({}));
            }
            other => panic!("unknown op {other}"),
        }
    }

    /// Everything has come to rest: compare, then give everything back and ask for it again.
    fn epilogue(&mut self, slab: &Slab, short: bool) {
        let b = json!(900);
        self.commit(slab, &b);
        let objs: Vec<i64> = self.vars.iter().filter(|(_, v)| matches!(v, Var::Obj(_))).map(|(k, _)| *k).collect();
        let bufs: Vec<i64> = self.vars.iter().filter(|(_, v)| matches!(v, Var::Buf(_))).map(|(k, _)| *k).collect();
        for x in &objs {
            self.op(slab, &json!(["getv", x]));
            if !short {
                self.op(slab, &json!(["rc", x]));
            }
        }
        for x in &bufs {
            self.op(slab, &json!(["upd", x]));
            if !short {
                self.op(slab, &json!(["peek", x]));
            }
        }
        if !short {
            for x in objs.iter().skip(1).step_by(2) {
                self.op(slab, &json!(["drop", x]));
            }
            self.commit(slab, &b);
            self.new(slab, &json!(901), 91, 2, "h", vec![90001]);
            self.new(slab, &json!(902), 92, 1, "ha", vec![90002, 90003]);
            self.commit(slab, &b);
        }
        for x in &objs {
            if !short {
                self.op(slab, &json!(["getv", x]));
            }
            self.op(slab, &json!(["drop", x]));
        }
        self.op(slab, &json!(["drop", 901]));
        self.op(slab, &json!(["drop", 902]));
        self.commit(slab, &b);
        let vs: Vec<i64> = (0..self.top).map(|i| 90010 + i).collect();
        if !vs.is_empty() {
            self.new(slab, &json!(903), 93, 1, "ha", vs);
        }
        if !short {
            self.commit(slab, &b);
        }
    }
}

// ---------------------------------------------------------------- one execution

fn execution(p: &Value) {
    {
        let mut g = LOG.lock().unwrap_or_else(|e| e.into_inner());
        *g = Some(Log::default());
    }
    with(|l| l.threads.insert(thread::current().id(), 1));
    vstd_active(true);
    {
        let slab: Slab = SlabAllocator::new(Rec, ());
        let mut env = Env::default();
        for op in p["init"].as_array().unwrap() {
            env.op(&slab, op);
        }
        let mut joins = vec![];
        for (i, t) in p["threads"].as_array().unwrap().iter().enumerate() {
            let mut mine = Env { top: env.top, ..Env::default() };
            for x in t["take"].as_array().unwrap() {
                if let Some(v) = env.vars.remove(&int(x)) {
                    mine.vars.insert(int(x), v);
                }
            }
            let slab = slab.clone();
            let ops = t["ops"].clone();
            joins.push(thread::spawn(move || {
                with(|l| l.threads.insert(thread::current().id(), i + 2));
                for op in ops.as_array().unwrap() {
                    mine.op(&slab, op);
                }
                drop(slab);
                mine
            }));
        }
        for j in joins {
            let e = j.join().unwrap();
            env.top = env.top.max(e.top);
            env.vars.extend(e.vars);
        }
        if let Some(fin) = p["fin"].as_array() {
            for op in fin {
                env.op(&slab, op);
            }
        }
        env.epilogue(&slab, p["short"] == json!(true));
        // buffers are released in the end
        let vars = std::mem::take(&mut env.vars);
        drop(slab);
        drop(vars);
    }
    vstd_active(false);
    with(|l| l.ev.push(json!({"k": "end"})));
    finish();
}

// ---------------------------------------------------------------- collecting histories

struct Out {
    file: std::io::BufWriter<std::fs::File>,
    p: String,
    seen: HashSet<u64>,
    execs: usize,
    kept: Vec<String>,
    rng: u64,
    cap: usize,
    distinct: usize,
}
impl Out {
    fn flush(&mut self) {
        self.distinct += self.seen.len();
        let p = self.p.clone();
        for s in std::mem::take(&mut self.kept) {
            writeln!(self.file, "{{\"p\":\"{p}\",\"ev\":{s}}}").unwrap();
        }
        self.file.flush().unwrap();
    }
}
static OUT: OnceLock<Mutex<Out>> = OnceLock::new();

fn out() -> std::sync::MutexGuard<'static, Out> {
    OUT.get().unwrap().lock().unwrap_or_else(|e| e.into_inner())
}

fn finish() {
    let ev = LOG.lock().unwrap_or_else(|e| e.into_inner()).take().map(|l| l.ev).unwrap_or_default();
    let mut o = out();
    o.execs += 1;
    // The order within a run of calls, or of returns, says nothing.
    let mut key: Vec<(String, String)> =
        ev.iter().map(|e| (e["k"].as_str().unwrap().to_string(), e.to_string())).collect();
    let mut a = 0;
    while a < key.len() {
        let mut b = a + 1;
        if key[a].0 == "call" || (key[a].0 == "ret" && !key[a].1.contains("\"m\"")) {
            while b < key.len() && key[b].0 == key[a].0 && !(key[b].0 == "ret" && key[b].1.contains("\"m\"")) {
                b += 1;
            }
            key[a..b].sort();
        }
        a = b;
    }
    let mut h = DefaultHasher::new();
    key.hash(&mut h);
    if o.seen.insert(h.finish()) {
        // keep a sample of the distinct histories
        let s = serde_json::to_string(&ev).unwrap();
        if o.kept.len() < o.cap {
            o.kept.push(s);
        } else if o.cap > 0 {
            o.rng = o.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let j = (o.rng >> 33) as usize % o.seen.len();
            if j < o.cap {
                o.kept[j] = s;
            }
        }
    }
}

/// The program failed: write what happened so far and stop.
fn fail(kind: &str, msg: &str) -> ! {
    vstd_active(false);
    with(|l| {
        l.ev.push(json!({"k": kind, "msg": msg.chars().take(300).collect::<String>()}));
        // calls that never returned
        let open: Vec<usize> = l.open.values().copied().collect();
        for i in open {
            l.ev[i]["never"] = json!(true);
        }
    });
    {
        let mut o = out();
        o.flush();
        o.seen.clear();
        o.cap = 1;
    }
    finish();
    out().flush();
    std::process::exit(0)
}

// ---------------------------------------------------------------- schedules

/// All schedules with at most one preemption, depth first; then a sample of those with a few more.
struct Bounded {
    most: usize,
    left: usize,
    // (options tried so far, number of options) of every step of the current execution
    path: Vec<(usize, usize)>,
    step: usize,
    used: usize,
    first: bool,
    done: bool,
    // executions left for the exhaustive part
    exact: usize,
    // choices of the longest execution; those at which the current one is to switch
    longest: usize,
    at: HashSet<usize>,
    rng: u64,
}
impl Bounded {
    fn new(bound: usize, iters: usize, seed: u64) -> Self {
        Bounded { most: bound + 1, left: iters, path: vec![], step: 0, used: 0, first: true, done: false,
            exact: if bound > 1 { iters / 2 } else { iters }, longest: 1, at: HashSet::new(),
            rng: (seed + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1 }
    }
    fn below(&mut self, n: usize) -> usize {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        (self.rng % n.max(1) as u64) as usize
    }
    /// Moves on to the next path; false if there is none.
    fn advance(&mut self) -> bool {
        while let Some((i, n)) = self.path.pop() {
            if i + 1 < n {
                self.path.push((i + 1, n));
                return true;
            }
        }
        false
    }
}
impl Scheduler for Bounded {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.longest = self.longest.max(self.step);
        if !self.done {
            self.done = self.exact == 0 || !(self.first || self.advance());
            self.exact = self.exact.saturating_sub(1);
            self.first = false;
        }
        if self.done {
            self.at.clear();
            for _ in 0..2 + self.below(self.most - 1) {
                let x = self.below(self.longest);
                self.at.insert(x);
            }
        }
        self.step = 0;
        self.used = 0;
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, _yielding: bool) -> Option<TaskId> {
        let mut opts: Vec<TaskId> = runnable.iter().map(|t| t.id()).collect();
        let cur = current.filter(|c| opts.contains(c));
        if let Some(c) = cur {
            opts.retain(|t| *t != c);
            opts.insert(0, c);
        }
        if opts.len() == 1 {
            return Some(opts[0]);
        }
        self.step += 1;
        if self.done {
            return Some(match cur {
                None => opts[self.below(opts.len())],
                Some(_) if self.at.contains(&(self.step - 1)) => opts[1 + self.below(opts.len() - 1)],
                Some(c) => c,
            });
        }
        if cur.is_some() && self.used >= 1 {
            opts.truncate(1);
        }
        if self.step > self.path.len() {
            self.path.push((0, opts.len()));
        }
        let (i, _) = self.path[self.step - 1];
        let i = i.min(opts.len() - 1);
        if cur.is_some() && i > 0 {
            self.used += 1;
        }
        Some(opts[i])
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
}

thread_local!(static LAST: RefCell<String> = const { RefCell::new(String::new()) });

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let programs = std::fs::read_to_string(&a[1]).unwrap();
    let file = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let deadline: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(3600);
    let begin = Instant::now();
    OUT.set(Mutex::new(Out { file, p: String::new(), seen: HashSet::new(), execs: 0, kept: vec![], rng: 1, cap: 0, distinct: 0 })).ok();
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        let kind = if msg.contains("deadlock!") || msg.contains("exceeded max_steps") { "dead" } else { "panic" };
        fail(kind, &msg);
    }));
    let mut total = 0;
    let mut progs = 0;
    for line in programs.lines() {
        if begin.elapsed().as_secs() > deadline {
            break;
        }
        let p: Value = serde_json::from_str(line).unwrap();
        progs += 1;
        {
            let mut o = out();
            o.p = p["p"].as_str().unwrap().to_string();
            o.seen.clear();
            o.rng = p["sched"]["seed"].as_u64().unwrap_or(1) ^ 0x9E3779B97F4A7C15;
            o.cap = p["cap"].as_u64().unwrap_or(50) as usize;
        }
        let s = &p["sched"];
        let iters = s["iters"].as_u64().unwrap_or(50) as usize;
        let seed = s["seed"].as_u64().unwrap_or(1);
        let depth = s["depth"].as_u64().unwrap_or(2) as usize;
        let mut config = Config::new();
        config.stack_size = 0x80000;
        config.failure_persistence = FailurePersistence::None;
        config.silence_warnings = true;
        let body = {
            let p = p.clone();
            move || execution(&p)
        };
        match s["kind"].as_str().unwrap() {
            "rand" => Runner::new(RandomScheduler::new_from_seed(seed, iters), config).run(body),
            "pct" => Runner::new(PctScheduler::new_from_seed(seed, depth, iters), config).run(body),
            _ => Runner::new(Bounded::new(depth, iters, seed), config).run(body),
        };
        let mut o = out();
        total += o.execs;
        o.execs = 0;
        o.flush();
    }
    println!("{total} {progs} {}", out().distinct);
}
