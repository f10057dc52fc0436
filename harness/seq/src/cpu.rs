//! The CPU reference runtime, observed.
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

use craballoc::prelude::*;
use crate::driver::{block_on, bounds, w, Probe};

#[derive(Default)]
pub struct Reg {
    next: i64,
    alive: BTreeMap<i64, Arc<VecSlab>>,
    writes: Vec<(i64, i64, Vec<i64>)>,
}

/// `CpuRuntime`, but it knows which of its buffers exist.
#[derive(Clone)]
pub struct Rt {
    inner: CpuRuntime,
    reg: Arc<Mutex<Reg>>,
}
impl AsRef<Rt> for Rt {
    fn as_ref(&self) -> &Rt {
        self
    }
}
pub struct TBuf {
    id: i64,
    slab: Arc<VecSlab>,
    reg: Arc<Mutex<Reg>>,
}
impl Drop for TBuf {
    fn drop(&mut self) {
        self.reg.lock().unwrap().alive.remove(&self.id);
    }
}
impl IsRuntime for Rt {
    type Buffer = TBuf;
    type BufferUsages = ();
    fn buffer_create(&self, capacity: usize, label: Option<&str>, usages: ()) -> TBuf {
        let slab = Arc::new(self.inner.buffer_create(capacity, label, usages));
        let mut reg = self.reg.lock().unwrap();
        reg.next += 1;
        let id = reg.next;
        reg.alive.insert(id, slab.clone());
        TBuf {
            id,
            slab,
            reg: self.reg.clone(),
        }
    }
    fn buffer_copy(&self, s: &TBuf, d: &TBuf, label: Option<&str>) {
        self.inner.buffer_copy(&s.slab, &d.slab, label)
    }
    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, updates: U, b: &TBuf) {
        let updates: Vec<_> = updates.collect();
        self.reg.lock().unwrap().writes.extend(updates.iter().map(|u| {
            (
                u.array.starting_index() as i64,
                u.array.len() as i64,
                u.elements.iter().map(|x| w(*x)).collect(),
            )
        }));
        self.inner.buffer_write(updates.into_iter(), &b.slab)
    }
    async fn buffer_read(
        &self,
        b: &TBuf,
        len: usize,
        range: impl std::ops::RangeBounds<usize>,
    ) -> Result<Vec<u32>, SlabAllocatorError> {
        self.inner.buffer_read(&b.slab, len, range).await
    }
}

pub struct Cpu(Rt);
impl Probe for Cpu {
    type Rt = Rt;
    fn new() -> Self {
        Cpu(Rt {
            inner: CpuRuntime,
            reg: Default::default(),
        })
    }
    fn allocator(&self) -> SlabAllocator<Rt> {
        SlabAllocator::new_with_label(&self.0, (), Some("verif"))
    }
    fn buf_id(&self, b: &TBuf) -> i64 {
        b.id
    }
    fn alive(&self) -> Vec<(i64, Vec<i64>)> {
        let reg = self.0.reg.lock().unwrap();
        reg.alive
            .iter()
            .map(|(id, s)| (*id, s.as_vec().iter().map(|x| w(*x)).collect()))
            .collect()
    }
    fn writes(&self) -> Option<Vec<(i64, i64, Vec<i64>)>> {
        Some(std::mem::take(&mut self.0.reg.lock().unwrap().writes))
    }
    fn poke(&self, b: &TBuf, slot: usize, word: u32) {
        let update = SlabUpdate {
            array: crabslab::Array::new(slot as u32, 1),
            elements: vec![word],
        };
        self.0.inner.buffer_write(std::iter::once(update), &b.slab);
    }
    fn read(
        &self,
        _: Option<&SlabAllocator<Rt>>,
        b: &TBuf,
        kind: i64,
        lo: usize,
        hi: usize,
    ) -> (usize, Result<Vec<i64>, String>) {
        let len = b.slab.as_vec().len();
        let r = block_on(self.0.buffer_read(b, len, bounds(kind, lo, hi)));
        (
            len,
            r.map(|v| v.into_iter().map(w).collect())
                .map_err(|e| e.to_string()),
        )
    }
}
