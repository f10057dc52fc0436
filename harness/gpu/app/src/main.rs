//! Allocator programs on the GPU runtime, next to the CPU reference runtime.
#[path = "../../../seq/src/cpu.rs"]
mod cpu;
#[path = "../../../seq/src/driver.rs"]
mod driver;

use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{Arc, Mutex},
};

use craballoc::prelude::*;
use craballoc::runtime::WgpuRuntime;
use crabslab::Array;
use driver::{block_on, bounds, w, Item, Probe};
use wgpu::BufferUsages as U;

/// asked of the allocator for all its buffers
const REQUESTED: U = U::VERTEX.union(U::INDEX);

struct Gpu {
    rt: WgpuRuntime,
    /// identity on the device -> number among the slab buffers
    known: Mutex<BTreeMap<u64, i64>>,
    short: Mutex<BTreeSet<i64>>,
}

impl Gpu {
    fn number(&self, id: u64) -> i64 {
        let mut k = self.known.lock().unwrap();
        let n = k.len() as i64 + 1;
        *k.entry(id).or_insert(n)
    }
}

fn words(bytes: &[u8]) -> Vec<i64> {
    bytes
        .chunks(4)
        .map(|c| {
            let mut b = [0; 4];
            b[..c.len()].copy_from_slice(c);
            w(u32::from_ne_bytes(b))
        })
        .collect()
}

impl Probe for Gpu {
    type Rt = WgpuRuntime;
    fn new() -> Self {
        let (device, queue) = wgpu::new_device();
        Gpu {
            rt: WgpuRuntime {
                device: Arc::new(device),
                queue: Arc::new(queue),
            },
            known: Default::default(),
            short: Default::default(),
        }
    }
    fn allocator(&self) -> SlabAllocator<WgpuRuntime> {
        let a = SlabAllocator::new_with_label(&self.rt, REQUESTED, Some("verif"));
        assert!(std::ptr::eq(a.device(), &*self.rt.device), "device()");
        assert!(std::ptr::eq(a.queue(), &*self.rt.queue), "queue()");
        a
    }
    fn buf_id(&self, b: &wgpu::Buffer) -> i64 {
        let n = self.number(b.identity());
        if !b.usage().contains(REQUESTED | U::STORAGE) {
            self.short.lock().unwrap().insert(n);
        }
        n
    }
    fn alive(&self) -> Vec<(i64, Vec<i64>)> {
        let mut v: Vec<_> = self
            .rt
            .device
            .existing()
            .into_iter()
            .filter(|x| {
                x.usage.contains(U::STORAGE) || self.known.lock().unwrap().contains_key(&x.id)
            })
            .map(|x| (self.number(x.id), words(&x.data)))
            .collect();
        v.sort();
        v
    }
    fn poke(&self, b: &wgpu::Buffer, slot: usize, word: u32) {
        b.poke(slot * 4, &word.to_ne_bytes());
    }
    fn read(
        &self,
        _: Option<&SlabAllocator<WgpuRuntime>>,
        b: &wgpu::Buffer,
        kind: i64,
        lo: usize,
        hi: usize,
    ) -> (usize, Result<Vec<i64>, String>) {
        let len = b.size() as usize / 4;
        let r = block_on(self.rt.buffer_read(b, len, bounds(kind, lo, hi)));
        (
            len,
            r.map(|v| v.into_iter().map(w).collect())
                .map_err(|e| e.to_string()),
        )
    }
    fn aread(
        &self,
        a: &SlabAllocator<WgpuRuntime>,
        kind: i64,
        lo: usize,
        hi: usize,
    ) -> Option<Result<Vec<i64>, String>> {
        Some(
            block_on(a.read(bounds(kind, lo, hi)))
                .map(|v| v.into_iter().map(w).collect())
                .map_err(|e| e.to_string()),
        )
    }
    fn read_array<T: Item>(
        &self,
        a: &SlabAllocator<WgpuRuntime>,
        array: Array<T>,
    ) -> Option<Result<Vec<T>, String>> {
        Some(block_on(a.read_array(array)).map_err(|e| e.to_string()))
    }
    fn complaints(&self) -> Vec<String> {
        self.short
            .lock()
            .unwrap()
            .iter()
            .map(|n| format!("buffer {n} lacks usages"))
            .collect()
    }
}

fn main() {
    driver::main_with_reference::<Gpu, cpu::Cpu>();
}
