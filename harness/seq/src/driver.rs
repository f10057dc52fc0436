//! Executes allocator programs against the real crate and records what is observable.
//!
//! Generic over a `Probe`, which supplies the runtime and knows which buffers exist.
use std::{
    cell::Cell,
    collections::BTreeMap,
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
};

use craballoc::prelude::*;
use craballoc::runtime::IsRuntime;
use crabslab::{Array, SlabItem};
use serde_json::{json, Value};

pub const HOLE: i64 = -1000000007;
pub const NULL: i64 = -1;

pub fn w(x: u32) -> i64 {
    x as i32 as i64
}

fn idn(x: u32) -> i64 {
    if x == u32::MAX {
        NULL
    } else {
        x as i64
    }
}

// ---------------------------------------------------------------------------------- item types
pub trait Item: SlabItem + Clone + Default + Send + Sync + 'static {
    const NUM: i64;
    fn make(v: i64) -> Self;
    /// The encoding this value is documented to have; HOLE for unspecified words.
    fn words(&self) -> Vec<i64>;
}

/// Negative numbers stand for the values whose bits are all clear (-1) or all set.
fn plain(v: i64) -> u32 {
    match v {
        -1 => 0,
        v if v < 0 => u32::MAX,
        v => v as u32,
    }
}

impl Item for std::marker::PhantomData<u8> {
    const NUM: i64 = 0;
    fn make(_: i64) -> Self {
        std::marker::PhantomData
    }
    fn words(&self) -> Vec<i64> {
        vec![]
    }
}
impl Item for u32 {
    const NUM: i64 = 1;
    fn make(v: i64) -> Self {
        plain(v)
    }
    fn words(&self) -> Vec<i64> {
        vec![w(*self)]
    }
}
impl Item for [u32; 2] {
    const NUM: i64 = 2;
    fn make(v: i64) -> Self {
        if v < 0 {
            return [plain(v); 2];
        }
        [v as u32, v as u32 + 500_000]
    }
    fn words(&self) -> Vec<i64> {
        self.iter().map(|x| w(*x)).collect()
    }
}
#[derive(Clone, Debug, PartialEq, Default, SlabItem)]
pub struct Pt {
    a: u32,
    b: i32,
    c: f32,
}
impl Item for Pt {
    const NUM: i64 = 3;
    fn make(v: i64) -> Self {
        if v < 0 {
            return Pt { a: plain(v), b: plain(v) as i32, c: if v == -1 { 0.0 } else { f32::MAX } };
        }
        Pt {
            a: v as u32,
            b: -(v as i32) - 1,
            c: v as f32 + 0.5,
        }
    }
    fn words(&self) -> Vec<i64> {
        vec![w(self.a), self.b as i64, w(self.c.to_bits())]
    }
}
impl Item for [u32; 4] {
    const NUM: i64 = 4;
    fn make(v: i64) -> Self {
        std::array::from_fn(|i| if v < 0 { plain(v) } else { v as u32 + 500_000 * i as u32 })
    }
    fn words(&self) -> Vec<i64> {
        self.iter().map(|x| w(*x)).collect()
    }
}
impl Item for [u32; 16] {
    const NUM: i64 = 8;
    fn make(v: i64) -> Self {
        std::array::from_fn(|i| if v < 0 { plain(v) } else { v as u32 + 500_000 * i as u32 })
    }
    fn words(&self) -> Vec<i64> {
        self.iter().map(|x| w(*x)).collect()
    }
}
impl Item for Option<[u32; 2]> {
    const NUM: i64 = 5;
    fn make(v: i64) -> Self {
        if v == -1 {
            Some([0, 0])
        } else if v < 0 || v % 3 == 0 {
            None
        } else {
            Some([v as u32, v as u32 + 500_000])
        }
    }
    fn words(&self) -> Vec<i64> {
        match self {
            None => vec![0, HOLE, HOLE],
            Some([a, b]) => vec![1, w(*a), w(*b)],
        }
    }
}
#[derive(Clone, Debug, PartialEq, Default, SlabItem)]
pub enum E {
    #[default]
    A,
    B(u32),
    C {
        x: u32,
        y: bool,
    },
}
impl Item for E {
    const NUM: i64 = 6;
    fn make(v: i64) -> Self {
        if v < 0 {
            return if v == -1 { E::A } else { E::C { x: u32::MAX, y: true } };
        }
        match v % 3 {
            0 => E::A,
            1 => E::B(v as u32),
            _ => E::C {
                x: v as u32,
                y: v % 2 == 0,
            },
        }
    }
    fn words(&self) -> Vec<i64> {
        match self {
            E::A => vec![0, HOLE, HOLE],
            E::B(x) => vec![1, w(*x), HOLE],
            E::C { x, y } => vec![2, w(*x), *y as i64],
        }
    }
}

thread_local! {
    static ENC: Cell<i64> = const { Cell::new(-1) };
    static CLONE: Cell<i64> = const { Cell::new(-1) };
}
fn tick(c: &'static std::thread::LocalKey<Cell<i64>>) {
    let n = c.get();
    if n == 0 {
        c.set(-1);
        panic!("planned");
    } else if n > 0 {
        c.set(n - 1);
    }
}
/// An item whose user-written encoder and clone panic on demand.
#[derive(Debug, PartialEq, Default)]
pub struct F(u32);
impl Clone for F {
    fn clone(&self) -> Self {
        tick(&CLONE);
        F(self.0)
    }
}
impl SlabItem for F {
    const SLAB_SIZE: usize = 2;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        F(slab[index])
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        slab[index] = self.0;
        tick(&ENC);
        slab[index + 1] = self.0 ^ 0x5555;
        index + 2
    }
}
impl Item for F {
    const NUM: i64 = 7;
    fn make(v: i64) -> Self {
        F(v as u32)
    }
    fn words(&self) -> Vec<i64> {
        vec![w(self.0), w(self.0 ^ 0x5555)]
    }
}

macro_rules! with_type {
    ($n:expr, $t:ident => $e:expr) => {
        with_type!(@ $n, $t, $e, 0 std::marker::PhantomData<u8>, 1 u32, 2 [u32; 2], 3 Pt, 4 [u32; 4],
            5 Option<[u32; 2]>, 6 E, 7 F, 8 [u32; 16])
    };
    (@ $n:expr, $t:ident, $e:expr, $($k:literal $ty:ty),*) => {
        match $n {
            $($k => {
                type $t = $ty;
                $e
            })*
            _ => None,
        }
    };
}

// ------------------------------------------------------------------------------------- handles
pub enum HT<T> {
    C(Hybrid<T>),
    G(Gpu<T>),
    WC(WeakHybrid<T>),
    WG(WeakGpu<T>),
    AC(HybridArray<T>),
    AG(GpuArray<T>),
}

pub type BH = Box<dyn AnyH>;

/// An iterator with this size hint.
struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1 .0 = self.1 .0.saturating_sub(1);
        self.1 .1 = self.1 .1.map(|x| x.saturating_sub(1));
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// A write guard that stays open while other calls are made.
pub trait AnyGuard {
    fn read(&self) -> Vec<i64>;
    fn write(&mut self, v: i64);
}
impl<T: Item> AnyGuard for HybridWriteGuard<'_, T> {
    fn read(&self) -> Vec<i64> {
        self.words()
    }
    fn write(&mut self, v: i64) {
        **self = T::make(v);
    }
}

pub trait AnyH {
    fn kind(&self) -> &'static str;
    fn is_arr(&self) -> bool;
    fn dup(&self) -> BH;
    fn weak(&self) -> Option<BH>;
    fn weakgpu(&self) -> Option<BH>;
    /// None: not a weak handle
    fn upgrade(&self) -> Option<Option<BH>>;
    fn gpuonly(self: Box<Self>) -> BH;
    fn count(&self) -> i64;
    fn sid(&self) -> i64;
    fn base(&self) -> i64;
    /// CPU value(s)
    fn val(&self) -> Vec<Vec<i64>>;
    fn words_of(&self, v: i64) -> Vec<i64>;
    fn set(&self, v: i64);
    fn open(&self) -> Box<dyn AnyGuard + '_>;
    /// Run `f` inside a modify closure.
    fn modify_with(&self, v: i64, f: &mut dyn FnMut()) -> (Vec<i64>, i64);
    fn amod_with(&self, i: usize, v: i64, f: &mut dyn FnMut()) -> Option<(Vec<i64>, i64)>;
    fn modify(&self, v: i64, fault: bool) -> (Vec<i64>, i64);
    fn guard(&self, mutate: bool, v: i64, fault: bool, order: i64) -> Vec<i64>;
    fn aset(&self, i: usize, v: i64) -> Option<Vec<i64>>;
    fn amod(&self, i: usize, v: i64, fault: bool) -> Option<(Vec<i64>, i64)>;
    fn aget(&self, i: usize) -> Option<Vec<i64>>;
    fn aid(&self, i: usize) -> i64;
    fn get(&self);
    fn hlen(&self) -> i64;
    fn tnum(&self) -> i64;
}

impl<T: Item> AnyH for HT<T> {
    fn kind(&self) -> &'static str {
        match self {
            HT::C(_) | HT::AC(_) => "cpu",
            HT::G(_) | HT::AG(_) => "gpu",
            HT::WC(_) => "wcpu",
            HT::WG(_) => "wgpu",
        }
    }
    fn is_arr(&self) -> bool {
        matches!(self, HT::AC(_) | HT::AG(_))
    }
    fn dup(&self) -> BH {
        Box::new(match self {
            HT::C(h) => HT::C(h.clone()),
            HT::G(h) => HT::G(h.clone()),
            HT::WC(h) => HT::WC(h.clone()),
            HT::WG(h) => HT::WG(h.clone()),
            HT::AC(h) => HT::AC(h.clone()),
            HT::AG(h) => HT::AG(h.clone()),
        })
    }
    fn weak(&self) -> Option<BH> {
        match self {
            HT::C(h) => Some(Box::new(HT::WC(WeakHybrid::from_hybrid(h)))),
            HT::G(h) => Some(Box::new(HT::WG(WeakGpu::from_gpu(h)))),
            _ => None,
        }
    }
    fn weakgpu(&self) -> Option<BH> {
        match self {
            HT::WC(h) => Some(Box::new(HT::WG(h.weak_gpu().clone()))),
            _ => None,
        }
    }
    fn upgrade(&self) -> Option<Option<BH>> {
        match self {
            HT::WC(h) => Some(h.upgrade().map(|h| Box::new(HT::C(h)) as BH)),
            HT::WG(h) => Some(h.upgrade().map(|h| Box::new(HT::G(h)) as BH)),
            _ => None,
        }
    }
    fn gpuonly(self: Box<Self>) -> BH {
        Box::new(match *self {
            HT::C(h) => HT::G(h.into_gpu_only()),
            HT::AC(h) => HT::AG(h.into_gpu_only()),
            x => x,
        })
    }
    fn count(&self) -> i64 {
        match self {
            HT::C(h) => h.ref_count() as i64,
            HT::WC(h) => {
                let c = h.strong_count() as i64;
                assert_eq!(h.has_external_references(), c > 0, "has_external_references");
                c
            }
            HT::AC(h) => h.ref_count() as i64,
            _ => -1,
        }
    }
    fn sid(&self) -> i64 {
        (match self {
            HT::C(h) => h.notifier_index(),
            HT::G(h) => h.notifier_index(),
            HT::WC(h) => h.notifier_index(),
            HT::WG(h) => h.notifier_index(),
            HT::AC(h) => h.notifier_index(),
            HT::AG(h) => h.notifier_index(),
        }) as i64
    }
    fn base(&self) -> i64 {
        match self {
            HT::C(h) => idn(h.id().inner()),
            HT::G(h) => idn(h.id().inner()),
            HT::WC(h) => idn(h.id().inner()),
            HT::WG(_) => -2,
            HT::AC(h) => idn(h.array().index),
            HT::AG(h) => idn(h.array().index),
        }
    }
    fn val(&self) -> Vec<Vec<i64>> {
        match self {
            HT::C(h) => vec![h.get().words()],
            HT::AC(h) => {
                let v = h.get_vec();
                assert_eq!(v.is_empty(), h.is_empty(), "is_empty");
                v.iter().map(|x| x.words()).collect()
            }
            _ => vec![],
        }
    }
    fn words_of(&self, v: i64) -> Vec<i64> {
        T::make(v).words()
    }
    fn set(&self, v: i64) {
        match self {
            HT::C(h) => h.set(T::make(v)),
            HT::G(h) => h.set(T::make(v)),
            _ => unreachable!(),
        }
    }
    fn open(&self) -> Box<dyn AnyGuard + '_> {
        match self {
            HT::C(h) => Box::new(h.lock()),
            _ => unreachable!(),
        }
    }
    fn modify_with(&self, v: i64, f: &mut dyn FnMut()) -> (Vec<i64>, i64) {
        match self {
            HT::C(h) => h.modify(|t| {
                let saw = t.words();
                if v % 2 == 0 {
                    *t = T::make(v + 1);
                }
                f();
                *t = T::make(v);
                (saw, v * 2 + 1)
            }),
            _ => unreachable!(),
        }
    }
    fn amod_with(&self, i: usize, v: i64, f: &mut dyn FnMut()) -> Option<(Vec<i64>, i64)> {
        match self {
            HT::AC(h) => h.modify(i, |t| {
                let saw = t.words();
                if v % 2 == 0 {
                    *t = T::make(v + 1);
                }
                f();
                *t = T::make(v);
                (saw, v * 2 + 1)
            }),
            _ => unreachable!(),
        }
    }
    fn modify(&self, v: i64, fault: bool) -> (Vec<i64>, i64) {
        match self {
            HT::C(h) => h.modify(|t| {
                let saw = t.words();
                *t = T::make(v);
                if fault {
                    panic!("planned")
                }
                (saw, v * 2 + 1)
            }),
            _ => unreachable!(),
        }
    }
    fn guard(&self, mutate: bool, v: i64, fault: bool, order: i64) -> Vec<i64> {
        match self {
            HT::C(h) => {
                let mut g = h.lock();
                let saw = g.words();
                if mutate {
                    if order % 2 == 1 {
                        // several writes through one guard
                        *g = T::make(v + 1);
                    }
                    *g = T::make(v);
                    // and a read after the write
                    let _ = g.words();
                }
                if fault {
                    panic!("planned")
                }
                saw
            }
            _ => unreachable!(),
        }
    }
    fn aset(&self, i: usize, v: i64) -> Option<Vec<i64>> {
        match self {
            HT::AC(h) => h.set_item(i, T::make(v)).map(|x| x.words()),
            HT::AG(h) => {
                h.set_item(i, &T::make(v));
                None
            }
            _ => unreachable!(),
        }
    }
    fn amod(&self, i: usize, v: i64, fault: bool) -> Option<(Vec<i64>, i64)> {
        match self {
            HT::AC(h) => h.modify(i, |t| {
                let saw = t.words();
                *t = T::make(v);
                if fault {
                    panic!("planned")
                }
                (saw, v * 2 + 1)
            }),
            _ => unreachable!(),
        }
    }
    fn aget(&self, i: usize) -> Option<Vec<i64>> {
        match self {
            HT::AC(h) => h.get(i).map(|x| x.words()),
            _ => unreachable!(),
        }
    }
    fn aid(&self, i: usize) -> i64 {
        match self {
            HT::AC(h) => idn(h.get_id(i).inner()),
            HT::AG(h) => idn(h.get_id(i).inner()),
            _ => unreachable!(),
        }
    }
    fn get(&self) {
        match self {
            HT::C(h) => drop(h.get()),
            HT::AC(h) => drop(h.get_vec()),
            _ => {}
        }
    }
    fn hlen(&self) -> i64 {
        match self {
            HT::AC(h) => h.len() as i64,
            HT::AG(h) => h.len() as i64,
            _ => 1,
        }
    }
    fn tnum(&self) -> i64 {
        T::NUM
    }
}

// --------------------------------------------------------------------------------------- probe
pub trait Probe {
    type Rt: IsRuntime;
    fn new() -> Self;
    fn allocator(&self) -> SlabAllocator<Self::Rt>;
    fn buf_id(&self, b: &<Self::Rt as IsRuntime>::Buffer) -> i64;
    /// Every buffer that exists, with its contents.
    fn alive(&self) -> Vec<(i64, Vec<i64>)>;
    /// Length of the buffer and the result of reading the range.
    fn read(
        &self,
        a: Option<&SlabAllocator<Self::Rt>>,
        b: &<Self::Rt as IsRuntime>::Buffer,
        kind: i64,
        lo: usize,
        hi: usize,
    ) -> (usize, Result<Vec<i64>, String>);
    /// Write one word the way code running on the GPU would.
    fn poke(&self, b: &<Self::Rt as IsRuntime>::Buffer, slot: usize, word: u32);
    /// Read back through the allocator; None if the runtime does not offer it.
    fn aread(
        &self,
        _: &SlabAllocator<Self::Rt>,
        _kind: i64,
        _lo: usize,
        _hi: usize,
    ) -> Option<Result<Vec<i64>, String>> {
        None
    }
    fn read_array<T: Item>(
        &self,
        _: &SlabAllocator<Self::Rt>,
        _: Array<T>,
    ) -> Option<Result<Vec<T>, String>> {
        None
    }
    /// The writes handed to the runtime since the last call: first slot, named length, words.
    fn writes(&self) -> Option<Vec<(i64, i64, Vec<i64>)>> {
        None
    }
    /// Complaints of the device, if the runtime has one.
    fn complaints(&self) -> Vec<String> {
        vec![]
    }
}

pub fn bounds(kind: i64, lo: usize, hi: usize) -> (std::ops::Bound<usize>, std::ops::Bound<usize>) {
    use std::ops::Bound::*;
    match kind {
        0 => (Included(lo), Excluded(hi)),
        1 => (Included(lo), Included(hi.wrapping_sub(1))),
        2 => (Unbounded, Excluded(hi)),
        3 => (Included(lo), Unbounded),
        4 => (Excluded(lo.wrapping_sub(1)), Excluded(hi)),
        5 => (Excluded(lo.wrapping_sub(1)), Included(hi.wrapping_sub(1))),
        6 => (Unbounded, Included(hi.wrapping_sub(1))),
        7 => (Excluded(lo.wrapping_sub(1)), Unbounded),
        _ => (Unbounded, Unbounded),
    }
}
/// The half-open range that a kind denotes; None if it can't be expressed that way.
pub fn denotes(kind: i64, lo: usize, hi: usize, len: usize) -> Option<(usize, usize)> {
    let (lo, hi) = match kind {
        0 => (lo, hi),
        1 if hi > 0 => (lo, hi),
        2 => (0, hi),
        3 => (lo, len),
        4 if lo > 0 => (lo, hi),
        5 if lo > 0 && hi > 0 => (lo, hi),
        6 if hi > 0 => (0, hi),
        7 if lo > 0 => (lo, len),
        8 => (0, len),
        _ => return None,
    };
    (lo <= hi && hi <= len).then_some((lo, hi))
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    struct W;
    impl std::task::Wake for W {
        fn wake(self: Arc<Self>) {}
    }
    let waker = Arc::new(W).into();
    let mut cx = std::task::Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        std::thread::yield_now();
    }
}

// -------------------------------------------------------------------------------------- driver
type Buf<P> = SlabBuffer<<<P as Probe>::Rt as IsRuntime>::Buffer>;

pub struct Driver<P: Probe> {
    /// open write guards by the handle they borrow, with the last value written; before `hs`, so that they go first
    guards: BTreeMap<i64, (Box<dyn AnyGuard>, Option<i64>)>,
    /// handles that are borrowed
    busy: std::collections::BTreeSet<i64>,
    /// source ids of the values that are locked
    locked: std::collections::BTreeSet<i64>,
    /// what happened inside the call in progress
    inner: Vec<Value>,
    probe: P,
    allocs: Vec<SlabAllocator<P::Rt>>,
    hs: BTreeMap<i64, BH>,
    bs: BTreeMap<i64, Buf<P>>,
    seen: BTreeMap<i64, Vec<i64>>,
    step: usize,
    /// how often to observe everything
    every: usize,
    /// end of what has been allocated so far
    top: usize,
    /// source ids of the values in which user code panicked
    bad: std::collections::BTreeSet<i64>,
}

type Out = Arc<Mutex<std::io::BufWriter<std::fs::File>>>;

fn n(op: &Value, i: usize) -> i64 {
    op[i].as_i64().unwrap_or(0)
}

impl<P: Probe> Driver<P> {
    pub fn new() -> Self {
        let probe = P::new();
        let allocs = vec![probe.allocator()];
        Driver {
            guards: Default::default(),
            busy: Default::default(),
            locked: Default::default(),
            inner: vec![],
            probe,
            allocs,
            hs: Default::default(),
            bs: Default::default(),
            seen: Default::default(),
            step: 0,
            every: 1,
            top: 0,
            bad: Default::default(),
        }
    }

    fn alloc(&self) -> Option<&SlabAllocator<P::Rt>> {
        if self.allocs.is_empty() {
            None
        } else {
            Some(&self.allocs[self.step % self.allocs.len()])
        }
    }

    /// Everything observable.  `full` includes the questions asked of the allocator, which it may answer by
    /// doing some of the next commit's work; a program can leave them out.
    fn obs(&mut self, full: bool) -> Value {
        let na = !full || self.alloc().is_none();
        let q = !na && self.alloc().is_some_and(|a| a.has_queued_updates());
        let cur = self
            .alloc()
            .filter(|_| full)
            .and_then(|a| a.get_buffer())
            .map(|b| self.probe.buf_id(&b))
            .unwrap_or(0);
        let hs: Vec<Value> = self
            .hs
            .iter()
            .filter(|_| full)
            .map(|(h, x)| {
                let lk = self.locked.contains(&x.sid());
                let v = catch_unwind(AssertUnwindSafe(|| if lk { vec![] } else { x.val() }));
                json!({"h": h, "k": x.kind(), "c": x.count(), "s": x.sid(), "id": x.base(), "lk": lk,
                       "p": v.is_err(), "v": v.unwrap_or_default(), "n": x.hlen()})
            })
            .collect();
        let bh: Vec<Value> = self
            .bs
            .iter()
            .map(|(b, x)| {
                assert_ne!(x.is_valid(), x.is_invalid(), "is_valid and is_invalid agree");
                #[allow(deprecated)]
                let upkeep = x.is_new_this_upkeep();
                assert_eq!(x.is_new_this_commit(), upkeep, "is_new_this_upkeep");
                json!({"b": b, "bid": self.probe.buf_id(x), "valid": x.is_valid(),
                       "new": x.is_new_this_commit(), "ct": x.creation_time()})
            })
            .collect();
        let alive = self.probe.alive();
        let al: Vec<i64> = alive.iter().map(|a| a.0).collect();
        let mut bw = vec![];
        for (id, words) in alive {
            if self.seen.get(&id) != Some(&words) {
                bw.push(json!({"bid": id, "w": words}));
                self.seen.insert(id, words);
            }
        }
        json!({"na": na, "q": q, "cur": cur, "hs": hs, "bh": bh, "al": al, "bw": bw})
    }

    fn free_h(&self, h: i64) -> Option<()> {
        (!self.hs.contains_key(&h)).then_some(())
    }
    fn cpu(&self, h: i64, arr: bool) -> Option<&BH> {
        self.hs.get(&h).filter(|x| {
            x.kind() == "cpu"
                && x.is_arr() == arr
                && !self.bad.contains(&x.sid())
                && !self.locked.contains(&x.sid())
        })
    }
    fn gpu(&self, h: i64, arr: bool) -> Option<&BH> {
        self.hs
            .get(&h)
            .filter(|x| x.kind() == "gpu" && x.is_arr() == arr)
    }

    /// `gpu`: straight on the GPU, without a CPU copy
    fn make_value<T: Item>(&mut self, h: i64, v: i64, gpu: bool) -> Option<Value> {
        let a = self.alloc()?;
        let (id, sid, x) = if gpu {
            let x = Gpu::new(a, T::make(v));
            (x.id(), x.notifier_index(), HT::G(x))
        } else {
            let x = if v % 3 == 0 { Hybrid::new(a, T::make(v)) } else { a.new_value(T::make(v)) };
            (x.id(), x.notifier_index(), HT::C(x))
        };
        let e = json!({"e":"new","h":h,"arr":false,"es":T::SLAB_SIZE,"vals":[T::make(v).words()],
            "base": idn(id.inner()), "n":1, "sid": sid, "kind": x.kind()});
        self.grown(id.inner(), T::SLAB_SIZE);
        self.hs.insert(h, Box::new(x));
        Some(e)
    }
    fn make_array<T: Item>(&mut self, h: i64, vs: &[i64], gpu: bool) -> Option<Value> {
        let a = self.alloc()?;
        let items = || vs.iter().map(|v| T::make(*v));
        let k = vs.len();
        let info = |array: Array<T>, ids: Vec<i64>, beyond: i64, sid: usize| {
            let words: Vec<_> = items().map(|t| t.words()).collect();
            json!({"e":"new","h":h,"arr":true,"es":T::SLAB_SIZE,"vals":words,
                "base": idn(array.index), "n":array.len(), "sid": sid, "ids": ids, "idx": beyond})
        };
        let (array, mut e, x) = if gpu {
            let x = GpuArray::new(a, &items().collect::<Vec<_>>());
            let ids: Vec<_> = (0..x.len()).map(|i| idn(x.get_id(i).inner())).collect();
            (x.array(), info(x.array(), ids, idn(x.get_id(x.len()).inner()), x.notifier_index()), HT::AG(x))
        } else {
            // the values come from iterators that know more or less about how many there are
            let hinted = |lo, hi| Hinted(items(), (lo, hi));
            let x = match vs.first().unwrap_or(&0) % 8 {
                0 => HybridArray::new(a, items().collect::<Vec<_>>()),
                1 => a.new_array(hinted(0, None)),
                2 => a.new_array(hinted(k / 2, Some(2 * k + 5))),
                3 => a.new_array(hinted(k, None)),
                4 => HybridArray::new(a, hinted(0, Some(k + 3))),
                5 => a.new_array(items()),
                _ => a.new_array(items().collect::<Vec<_>>()),
            };
            let ids: Vec<_> = (0..x.len()).map(|i| idn(x.get_id(i).inner())).collect();
            (x.array(), info(x.array(), ids, idn(x.get_id(x.len()).inner()), x.notifier_index()), HT::AC(x))
        };
        e["kind"] = x.kind().into();
        self.grown(array.index, T::SLAB_SIZE * k);
        self.hs.insert(h, Box::new(x));
        Some(e)
    }
    fn grown(&mut self, base: u32, size: usize) {
        if size > 0 {
            self.top = self.top.max(base as usize + size);
        }
    }
    fn make_any(&mut self, h: i64, t: i64, vs: Option<&[i64]>, v: i64, gpu: bool) -> Option<Value> {
        with_type!(t, T => match vs {
            None => self.make_value::<T>(h, v, gpu),
            Some(vs) => self.make_array::<T>(h, vs, gpu),
        })
    }
    fn size_of(&self, t: i64) -> i64 {
        with_type!(t, T => Some(T::SLAB_SIZE as i64)).unwrap_or(0)
    }
    fn read_array(&self, t: i64, base: i64, len: i64) -> Option<(bool, Vec<Vec<i64>>)> {
        let a = self.alloc()?;
        with_type!(t, T => {
            let r = self.probe.read_array::<T>(a, Array::new(base as u32, len as u32))?;
            Some((r.is_ok(), r.unwrap_or_default().iter().map(|x| x.words()).collect()))
        })
    }

    /// Run code that is expected to panic; Some(true) if it did.
    fn expect_panic(&mut self, f: impl FnOnce(&mut Self)) -> bool {
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        ENC.set(-1);
        CLONE.set(-1);
        r.is_err()
    }

    /// Execute one operation; None if it does not apply to the current handles.
    fn exec(&mut self, op: &Value) -> Option<Value> {
        let name = op[0].as_str().unwrap_or("");
        let h = n(op, 1);
        match name {
            "new" | "newg" => {
                self.free_h(h)?;
                self.make_any(h, n(op, 2), None, n(op, 3), name == "newg")
            }
            "arr" | "arrg" => {
                self.free_h(h)?;
                let vs: Vec<i64> = op[3].as_array()?.iter().filter_map(|x| x.as_i64()).collect();
                self.make_any(h, n(op, 2), Some(&vs), 0, name == "arrg")
            }
            "clone" => {
                let h2 = n(op, 2);
                self.free_h(h2)?;
                let x = self.hs.get(&h)?.dup();
                let e = json!({"e":"clone","h":h,"h2":h2,"sid":x.sid()});
                self.hs.insert(h2, x);
                Some(e)
            }
            "drop" => {
                if self.busy.contains(&h) {
                    return None;
                }
                self.hs.remove(&h)?;
                Some(json!({"e":"drop","h":h}))
            }
            "weak" => {
                let h2 = n(op, 2);
                self.free_h(h2)?;
                let x = self.hs.get(&h)?.weak()?;
                self.hs.insert(h2, x);
                Some(json!({"e":"weak","h":h,"h2":h2}))
            }
            "weakgpu" => {
                let h2 = n(op, 2);
                self.free_h(h2)?;
                let x = self.hs.get(&h)?.weakgpu()?;
                self.hs.insert(h2, x);
                Some(json!({"e":"weakgpu","h":h,"h2":h2}))
            }
            "up" => {
                let h2 = n(op, 2);
                self.free_h(h2)?;
                let x = self.hs.get(&h)?.upgrade()?;
                let ok = x.is_some();
                let base = x.as_ref().map(|x| x.base()).unwrap_or(-2);
                if let Some(x) = x {
                    self.hs.insert(h2, x);
                }
                Some(json!({"e":"up","h":h,"h2":h2,"ok":ok,"base":base}))
            }
            "gpuonly" => {
                if self.hs.get(&h)?.kind() != "cpu" || self.busy.contains(&h) {
                    return None;
                }
                let x = self.hs.remove(&h)?.gpuonly();
                self.hs.insert(h, x);
                Some(json!({"e":"gpuonly","h":h}))
            }
            "set" => {
                let v = n(op, 2);
                if let Some(x) = self.cpu(h, false) {
                    x.set(v);
                    Some(json!({"e":"set","h":h,"w":x.words_of(v)}))
                } else {
                    let x = self.gpu(h, false)?;
                    x.set(v);
                    Some(json!({"e":"gset","h":h,"w":x.words_of(v)}))
                }
            }
            "mod" => {
                let v = n(op, 2);
                let x = self.cpu(h, false)?;
                let (saw, ret) = x.modify(v, false);
                Some(json!({"e":"mod","h":h,"w":x.words_of(v),"saw":saw,"ret":ret == v * 2 + 1}))
            }
            "guard" => {
                let (m, v) = (n(op, 2) != 0, n(op, 3));
                let x = self.cpu(h, false)?;
                let saw = x.guard(m, v, false, v);
                Some(json!({"e":"guard","h":h,"mut":m,"w":x.words_of(v),"saw":saw}))
            }
            "gopen" => {
                let x = self.cpu(h, false)?;
                let sid = x.sid();
                let g = x.open();
                let saw = g.read();
                // SAFETY: the handle is boxed, and stays where it is for as long as it is busy
                let g: Box<dyn AnyGuard> = unsafe { std::mem::transmute(g) };
                self.guards.insert(h, (g, None));
                self.busy.insert(h);
                self.locked.insert(sid);
                Some(json!({"e":"gopen","h":h,"saw":saw}))
            }
            "gmut" => {
                let v = n(op, 2);
                let g = self.guards.get_mut(&h)?;
                g.0.write(v);
                g.1 = Some(v);
                Some(json!({"e":"gmut","h":h,"saw":g.0.read(),"w":self.hs[&h].words_of(v)}))
            }
            "gclose" => {
                let (g, v) = self.guards.remove(&h)?;
                drop(g);
                self.busy.remove(&h);
                let x = &self.hs[&h];
                self.locked.remove(&x.sid());
                Some(json!({"e":"gclose","h":h,"mut":v.is_some(),"w":x.words_of(v.unwrap_or(0))}))
            }
            // other calls made by the closure
            "modn" | "amodn" => {
                let arr = name == "amodn";
                let (i, v, ops) = if arr { (n(op, 2), n(op, 3), &op[4]) } else { (0, n(op, 2), &op[3]) };
                let x: *const dyn AnyH = &**self.cpu(h, arr)?;
                // SAFETY: as above
                let x = unsafe { &*x };
                let sid = x.sid();
                if self.busy.contains(&h) {
                    return None;
                }
                self.busy.insert(h);
                self.locked.insert(sid);
                let mut inner = vec![];
                let mut f = || {
                    for op in ops.as_array().into_iter().flatten() {
                        // one event for each, so that they line up with the reference's
                        let mut e = self.exec(op).unwrap_or(json!({"e":"nothing"}));
                        if e["e"] == "commit" || e["e"] == "poke" {
                            e["o"] = self.obs(false);
                        }
                        inner.push(e);
                    }
                };
                let (ok, saw, w) = if arr {
                    let r = x.amod_with(i as usize, v, &mut f);
                    (r.as_ref().is_some_and(|r| r.1 == v * 2 + 1), r.map(|r| r.0), x.words_of(v))
                } else {
                    let (saw, ret) = x.modify_with(v, &mut f);
                    (ret == v * 2 + 1, Some(saw), x.words_of(v))
                };
                self.inner.append(&mut inner);
                self.busy.remove(&h);
                self.locked.remove(&sid);
                let saw = saw.unwrap_or_default();
                Some(if arr {
                    json!({"e":"amod","h":h,"i":i.min(1 << 30),"w":w,"ok":ok,"saw":saw})
                } else {
                    json!({"e":"mod","h":h,"w":w,"saw":saw,"ret":ok})
                })
            }
            "aset" => {
                let (i, v) = (n(op, 2), n(op, 3));
                if let Some(x) = self.cpu(h, true) {
                    let r = x.aset(i as usize, v);
                    Some(json!({"e":"aset","h":h,"i":i.min(1 << 30),"w":x.words_of(v),"ok":r.is_some(),
                        "saw":r.unwrap_or_default()}))
                } else {
                    let x = self.gpu(h, true)?;
                    x.aset(i as usize, v);
                    Some(json!({"e":"gaset","h":h,"i":i.min(1 << 30),"w":x.words_of(v)}))
                }
            }
            "amod" => {
                let (i, v) = (n(op, 2), n(op, 3));
                let x = self.cpu(h, true)?;
                let r = x.amod(i as usize, v, false);
                let ok = r.as_ref().is_some_and(|r| r.1 == v * 2 + 1);
                Some(json!({"e":"amod","h":h,"i":i.min(1 << 30),"w":x.words_of(v),"ok":ok,
                    "saw":r.map(|r| r.0).unwrap_or_default()}))
            }
            "aget" => {
                let i = n(op, 2);
                let r = self.cpu(h, true)?.aget(i as usize);
                Some(json!({"e":"aget","h":h,"i":i.min(1 << 30),"ok":r.is_some(),"w":r.unwrap_or_default()}))
            }
            "aid" => {
                let i = n(op, 2);
                let x = self.hs.get(&h).filter(|x| x.is_arr())?;
                Some(json!({"e":"aid","h":h,"i":i.min(1 << 30),"id":x.aid(i as usize)}))
            }
            "commit" => {
                let b = h;
                // a name in use is given up first
                if self.bs.contains_key(&b) {
                    return None;
                }
                let a = self.alloc()?;
                // the older name must not differ
                #[allow(deprecated)]
                let buf = if self.step % 7 == 3 {
                    a.upkeep()
                } else {
                    a.commit()
                };
                let bid = self.probe.buf_id(&buf);
                self.bs.insert(b, buf);
                let mut e = json!({"e":"commit","b":b,"bid":bid});
                if let Some(ws) = self.probe.writes() {
                    e["wr"] = ws
                        .into_iter()
                        .map(|(a, l, w)| json!({"a":a,"l":l,"w":w}))
                        .collect();
                }
                Some(e)
            }
            "getbuf" => {
                if self.bs.contains_key(&h) {
                    return None;
                }
                let buf = self.alloc()?.get_buffer();
                let bid = buf.as_ref().map(|b| self.probe.buf_id(b)).unwrap_or(0);
                if let Some(buf) = buf {
                    self.bs.insert(h, buf);
                }
                Some(json!({"e":"getbuf","b":h,"bid":bid}))
            }
            "bclone" => {
                let b2 = n(op, 2);
                if self.bs.contains_key(&b2) {
                    return None;
                }
                let x = self.bs.get(&h)?.clone();
                self.bs.insert(b2, x);
                Some(json!({"e":"bclone","b":h,"b2":b2}))
            }
            "bdrop" => {
                self.bs.remove(&h)?;
                Some(json!({"e":"bdrop","b":h}))
            }
            "bsync" => {
                let probe = &self.probe;
                let x = self.bs.get_mut(&h)?;
                #[allow(deprecated)]
                let ret = if self.step % 7 == 3 {
                    x.synchronize()
                } else {
                    x.update_if_invalid()
                };
                let bid = probe.buf_id(x);
                Some(json!({"e":"bsync","b":h,"ret":ret,"bid":bid}))
            }
            "defrag" => {
                self.alloc()?.defrag();
                Some(json!({"e":"defrag"}))
            }
            "ids" => {
                let mut ids: Vec<_> = self.alloc()?.get_updated_source_ids().into_iter().collect();
                ids.sort();
                Some(json!({"e":"ids","ids":ids}))
            }
            "aclone" => {
                let a = self.alloc()?.clone();
                self.allocs.push(a);
                Some(json!({"e":"aclone"}))
            }
            "adrop" => {
                if self.allocs.is_empty() {
                    return None;
                }
                let i = self.step % self.allocs.len();
                self.allocs.swap_remove(i);
                Some(json!({"e":"adrop"}))
            }
            "read" => {
                let (kind, lo, hi) = (n(op, 2), n(op, 3) as usize, n(op, 4) as usize);
                let b = self.bs.get(&h)?;
                let id = self.probe.buf_id(b);
                let len = self.probe.alive().iter().find(|a| a.0 == id)?.1.len();
                let (lo, hi) = (lo.min(len), hi.min(len));
                let (from, to) = denotes(kind, lo, hi, len)?;
                let (blen, r) = self.probe.read(self.alloc(), b, kind, lo, hi);
                Some(json!({"e":"read","b":h,"kind":kind,"lo":from,"hi":to,"len":blen,"ok":r.is_ok(),
                    "w":r.unwrap_or_default()}))
            }
            "aread" => {
                let (kind, lo, hi) = (n(op, 2), n(op, 3) as usize, n(op, 4) as usize);
                let a = self.alloc()?;
                // what an open end denotes depends on how much has been allocated
                let (max, open) = match a.get_buffer() {
                    None => (usize::MAX, self.top),
                    Some(b) => {
                        let id = self.probe.buf_id(&b);
                        let len = self.probe.alive().iter().find(|a| a.0 == id)?.1.len();
                        (len, len.min(self.top))
                    }
                };
                let open_ended = matches!(kind, 3 | 7 | 8);
                let (lo, hi) = if open_ended {
                    (lo.min(open), open)
                } else {
                    (lo.min(max), hi.min(max))
                };
                let (from, to) = denotes(kind, lo, hi, if open_ended { open } else { max })?;
                let r = self.probe.aread(a, kind, lo, hi)?;
                Some(json!({"e":"aread","kind":kind,"lo":from,"hi":to,"open":open_ended,
                    "ok":r.is_ok(),"w":r.unwrap_or_default()}))
            }
            "rarr" => {
                let x = self.hs.get(&h).filter(|x| x.is_arr())?;
                let a = self.alloc()?;
                let (base, len, t) = (x.base(), x.hlen(), x.tnum());
                let size = len * self.size_of(t);
                if let Some(b) = a.get_buffer() {
                    let id = self.probe.buf_id(&b);
                    let blen = self.probe.alive().iter().find(|a| a.0 == id)?.1.len() as i64;
                    if size > 0 && base + size > blen {
                        return None;
                    }
                }
                let (ok, w) = self.read_array(t, base, len)?;
                Some(json!({"e":"rarr","h":h,"ok":ok,"w":w}))
            }
            "rnull" => {
                let (ok, w) = self.read_array(n(op, 2), NULL, 0)?;
                Some(json!({"e":"rnull","ok":ok,"w":w}))
            }
            "poke" => {
                // a slot of a live handle, a word
                let (i, v) = (n(op, 2), n(op, 3));
                let x = self.hs.get(&h).filter(|x| matches!(x.kind(), "cpu" | "gpu"))?;
                let slot = x.base() + i;
                if i >= x.hlen() * self.size_of(x.tnum()) {
                    return None;
                }
                let b = self.alloc()?.get_buffer()?;
                let id = self.probe.buf_id(&b);
                let len = self.probe.alive().iter().find(|a| a.0 == id)?.1.len() as i64;
                if slot >= len {
                    return None;
                }
                self.probe.poke(&b, slot as usize, v as u32);
                Some(json!({"e":"poke","bid":id,"h":h,"x":slot,"w":w(v as u32)}))
            }
            // ---- faults: user code panics
            "fmod" => {
                let v = n(op, 2);
                self.cpu(h, false)?;
                let p = self.expect_panic(|s| drop(s.hs[&h].modify(v, true)));
                Some(if p { json!({"e":"fpoison","h":h}) } else { json!({"e":"fault"}) })
            }
            "fguard" => {
                let (m, v) = (n(op, 2) != 0, n(op, 3));
                let w = self.cpu(h, false)?.words_of(v);
                self.expect_panic(|s| drop(s.hs[&h].guard(m, v, true, 0)));
                Some(if m {
                    json!({"e":"fmaybe","h":h,"i":0,"w":w})
                } else {
                    json!({"e":"fpoison","h":h})
                })
            }
            "fset" => {
                // which: 0 = encoder, 1 = clone
                let (v, which) = (n(op, 2), n(op, 3));
                let x = self.hs.get(&h).filter(|x| !x.is_arr())?;
                if x.kind() == "cpu" {
                    self.cpu(h, false)?;
                }
                let kind = x.kind();
                if kind.starts_with('w') {
                    return None;
                }
                let w = x.words_of(v);
                if which == 0 {
                    ENC.set(0)
                } else {
                    CLONE.set(0)
                }
                let p = self.expect_panic(|s| s.hs[&h].set(v));
                Some(match (p, kind) {
                    (true, "cpu") => json!({"e":"fpoison","h":h}),
                    (true, _) => json!({"e":"fault"}),
                    (false, "cpu") => json!({"e":"set","h":h,"w":w}),
                    (false, _) => json!({"e":"gset","h":h,"w":w}),
                })
            }
            "famod" => {
                let (i, v) = (n(op, 2), n(op, 3));
                self.cpu(h, true)?;
                let p = self.expect_panic(|s| drop(s.hs[&h].amod(i as usize, v, true)));
                Some(if p { json!({"e":"fpoison","h":h}) } else { json!({"e":"fault"}) })
            }
            "faset" => {
                let (i, v) = (n(op, 2), n(op, 3));
                let x = self.hs.get(&h).filter(|x| x.is_arr())?;
                if x.kind() == "cpu" {
                    self.cpu(h, true)?;
                }
                let kind = x.kind();
                if i < 0 || i >= x.hlen() {
                    return None;
                }
                let old = if kind == "cpu" {
                    catch_unwind(AssertUnwindSafe(|| x.aget(i as usize))).ok()?
                } else {
                    None
                };
                let w = x.words_of(v);
                ENC.set(0);
                let p = self.expect_panic(|s| drop(s.hs[&h].aset(i as usize, v)));
                Some(match (p, kind) {
                    (true, "cpu") => json!({"e":"fpoison","h":h}),
                    (true, _) => json!({"e":"fault"}),
                    (false, "cpu") => json!({"e":"aset","h":h,"i":i.min(1 << 30),"w":w,"ok":true,
                        "saw":old.unwrap_or_default()}),
                    (false, _) => json!({"e":"gaset","h":h,"i":i.min(1 << 30),"w":w}),
                })
            }
            "fnew" => {
                // which: 0 encoder, 1 clone; arr: number of items, -1 for a value
                let (v, which, len) = (n(op, 2), n(op, 3), n(op, 4));
                self.free_h(h)?;
                self.alloc()?;
                let after = v % 2 * len.max(0).min(1);
                if which == 0 {
                    ENC.set(after.min((len - 1).max(0)))
                } else {
                    CLONE.set(0)
                }
                let mut made = None;
                let p = self.expect_panic(|s| {
                    let vs: Vec<i64> = (0..len.max(0)).map(|i| v + i).collect();
                    made = s.make_any(h, 7, (len >= 0).then_some(&vs[..]), v, false);
                });
                if p {
                    Some(json!({"e":"leak"}))
                } else {
                    made
                }
            }
            "fiter" => {
                let k = n(op, 2);
                self.alloc()?;
                self.expect_panic(|s| {
                    let a = s.alloc().unwrap();
                    drop(a.new_array((0..k + 1).map(|i| {
                        if i == k {
                            panic!("planned")
                        }
                        i as u32
                    })));
                });
                Some(json!({"e":"fault"}))
            }
            "fclone" => {
                if self.hs.get(&h)?.kind() != "cpu"
                    || self.bad.contains(&self.hs[&h].sid())
                    || self.locked.contains(&self.hs[&h].sid())
                {
                    return None;
                }
                CLONE.set(0);
                self.expect_panic(|s| s.hs[&h].get());
                Some(json!({"e":"fault"}))
            }
            _ => None,
        }
    }
}

fn emit(out: &Out, e: &Value) {
    let mut o = out.lock().unwrap();
    serde_json::to_writer(&mut *o, e).unwrap();
    o.write_all(b"\n").unwrap();
}

/// Runs every program of the file named by the first argument, writes the trace to the second.
#[allow(dead_code)]
pub fn main<P: Probe>() {
    run::<P, P>(false)
}

/// The same on two runtimes side by side; what the second one did is attached to the events.
#[allow(dead_code)]
pub fn main_with_reference<P: Probe, Q: Probe>() {
    run::<P, Q>(true)
}

/// What happened inside the call, then the call.
fn step<P: Probe>(d: &mut Driver<P>, op: &Value) -> Vec<Value> {
    d.inner.clear();
    let Some(mut e) = d.exec(op) else {
        return std::mem::take(&mut d.inner);
    };
    if e["e"] == "fpoison" || e["e"] == "fmaybe" {
        let sid = d.hs[&e["h"].as_i64().unwrap()].sid();
        d.bad.insert(sid);
    }
    let full = d.step % d.every == d.every - 1;
    if full || e["e"] == "commit" || e["e"] == "poke" {
        e["o"] = d.obs(full);
    }
    let c = d.probe.complaints();
    if !c.is_empty() {
        e["dev"] = json!(c);
    }
    let mut es = std::mem::take(&mut d.inner);
    es.push(e);
    es
}

fn run<P: Probe, Q: Probe>(twin: bool) {
    let args: Vec<String> = std::env::args().collect();
    let programs = std::fs::read_to_string(&args[1]).unwrap();
    let out: Out = Arc::new(Mutex::new(std::io::BufWriter::new(
        std::fs::File::create(&args[2]).unwrap(),
    )));
    let msg: Arc<Mutex<String>> = Default::default();
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| {
        *m2.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string();
    }));
    // a call that does not return
    static TICK: AtomicU64 = AtomicU64::new(0);
    let o2 = out.clone();
    std::thread::spawn(move || {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::SeqCst);
            same = if t == last { same + 1 } else { 0 };
            last = t;
            if same >= 20 {
                emit(&o2, &json!({"e":"stuck"}));
                o2.lock().unwrap().flush().unwrap();
                std::process::exit(0);
            }
        }
    });
    for line in programs.lines() {
        let prog: Value = serde_json::from_str(line).unwrap();
        TICK.fetch_add(1, Ordering::SeqCst);
        emit(&out, &json!({"e":"reset","p":prog["p"],"gpu":twin}));
        out.lock().unwrap().flush().unwrap();
        let mut d = Driver::<P>::new();
        let mut reference = twin.then(Driver::<Q>::new);
        let every = prog["every"].as_u64().unwrap_or(1).max(1) as usize;
        d.every = every;
        if let Some(q) = &mut reference {
            q.every = every;
        }
        let mut failed = false;
        for (i, op) in prog["ops"].as_array().unwrap().iter().enumerate() {
            TICK.fetch_add(1, Ordering::SeqCst);
            d.step = i;
            msg.lock().unwrap_or_else(|e| e.into_inner()).clear();
            let r = catch_unwind(AssertUnwindSafe(|| step(&mut d, op)));
            let mut es = match r {
                Ok(es) => es,
                Err(_) => {
                    ENC.set(-1);
                    CLONE.set(-1);
                    let m = msg.lock().unwrap_or_else(|e| e.into_inner()).clone();
                    failed = true;
                    let mut es = std::mem::take(&mut d.inner);
                    es.push(json!({"e":"panic","op":op,"i":i,"msg":m}));
                    es
                }
            };
            if let Some(q) = &mut reference {
                q.step = i;
                let rs = match catch_unwind(AssertUnwindSafe(|| step(q, op))) {
                    Ok(rs) => rs,
                    Err(_) => {
                        ENC.set(-1);
                        CLONE.set(-1);
                        let mut rs = std::mem::take(&mut q.inner);
                        rs.push(json!({"e":"panic"}));
                        rs
                    }
                };
                while es.len() < rs.len() {
                    es.push(json!({"e":"nothing"}));
                }
                for (e, r) in es.iter_mut().zip(rs) {
                    if r["e"] != "nothing" {
                        e["ref"] = r;
                    }
                }
            }
            for e in es.into_iter().filter(|e| e["e"] != "nothing" || e.get("ref").is_some()) {
                emit(&out, &e);
            }
            if failed {
                break;
            }
        }
        std::mem::forget(reference);
        if failed {
            // whatever is left may be unusable
            std::mem::forget(d);
        } else if catch_unwind(AssertUnwindSafe(|| drop(d))).is_err() {
            emit(&out, &json!({"e":"panic","op":"drop everything","i":-1,"msg":""}));
        }
    }
    out.lock().unwrap().flush().unwrap();
}
