//! A stand-in for wgpu 24: buffers and queues in memory, with the names and signatures of the
//! real crate.  It refuses, by panicking like wgpu's default error handler, what WebGPU refuses:
//! missing usages, misaligned or out-of-bounds copies and writes, use of mapped or destroyed
//! buffers.  Like on a real device
//!  * encoded commands take effect when they are submitted, queued writes before them;
//!  * buffers are mapped, and callbacks called, only by polling, and only if the poll waits for
//!    the work that the buffer is used in (polling without waiting needs several attempts).
use std::{
    collections::BTreeMap,
    fmt,
    ops::{Bound, Deref, DerefMut, Range, RangeBounds},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
};

pub use wgpu_types::{
    self as wgt, BufferAddress, BufferSize, BufferUsages, MaintainResult, COPY_BUFFER_ALIGNMENT,
    MAP_ALIGNMENT,
};
pub type Label<'a> = Option<&'a str>;
pub type BufferDescriptor<'a> = wgt::BufferDescriptor<Label<'a>>;
pub type CommandEncoderDescriptor<'a> = wgt::CommandEncoderDescriptor<Label<'a>>;
pub type Maintain = wgt::Maintain<SubmissionIndex>;

#[derive(Debug, Clone)]
pub struct SubmissionIndex(u64);

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BufferAsyncError;
impl fmt::Display for BufferAsyncError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error occurred when trying to async map a buffer")
    }
}
impl std::error::Error for BufferAsyncError {}

#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub enum MapMode {
    Read,
    Write,
}

type Callback = Box<dyn FnOnce(Result<(), BufferAsyncError>) + Send + 'static>;

enum Map {
    Not,
    Pending(MapMode, Range<u64>, Option<Callback>),
    Mapped(MapMode, Range<u64>),
}

struct Raw {
    id: u64,
    usage: BufferUsages,
    size: u64,
    state: Mutex<State>,
}
struct State {
    data: Vec<u8>,
    map: Map,
    destroyed: bool,
    views: usize,
    /// the last submission that uses it
    last: u64,
}

#[derive(Default)]
struct Shared {
    raws: BTreeMap<u64, std::sync::Weak<Raw>>,
    polls: u64,
    work_done: Vec<Box<dyn FnOnce() + Send>>,
}

/// The device: both `Device` and `Queue` refer to one.
#[derive(Default)]
struct World {
    next: AtomicU64,
    submitted: AtomicU64,
    shared: Mutex<Shared>,
}

#[derive(Clone)]
pub struct Device(Arc<World>);
#[derive(Clone)]
pub struct Queue(Arc<World>);
impl fmt::Debug for Device {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Device")
    }
}
impl fmt::Debug for Queue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Queue")
    }
}

#[track_caller]
fn refuse(what: impl fmt::Display) -> ! {
    panic!("wgpu error: Validation Error\n\n{what}")
}

/// A new device (not part of wgpu).
pub fn new_device() -> (Device, Queue) {
    let w = Arc::new(World::default());
    (Device(w.clone()), Queue(w))
}

/// What exists on a device (not part of wgpu).
pub struct Existing {
    pub id: u64,
    pub usage: BufferUsages,
    pub data: Vec<u8>,
}
impl Device {
    pub fn existing(&self) -> Vec<Existing> {
        let raws: Vec<_> = {
            let mut s = self.0.shared.lock().unwrap();
            s.raws.retain(|_, r| r.strong_count() > 0);
            s.raws.values().filter_map(|r| r.upgrade()).collect()
        };
        raws.iter()
            .filter_map(|r| {
                let st = r.state.lock().unwrap();
                (!st.destroyed).then(|| Existing {
                    id: r.id,
                    usage: r.usage,
                    data: st.data.clone(),
                })
            })
            .collect()
    }
}

#[derive(Clone)]
pub struct Buffer {
    raw: Arc<Raw>,
    _world: Arc<World>,
}
impl fmt::Debug for Buffer {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Buffer({})", self.raw.id)
    }
}
impl PartialEq for Buffer {
    fn eq(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.raw, &o.raw)
    }
}
impl Eq for Buffer {}
impl std::hash::Hash for Buffer {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.raw.id.hash(h)
    }
}
impl PartialOrd for Buffer {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Buffer {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.raw.id.cmp(&o.raw.id)
    }
}

impl Raw {
    fn usable(&self, need: BufferUsages, what: &str) {
        let st = self.state.lock().unwrap();
        if st.destroyed {
            drop(st);
            refuse(format!("{what}: buffer {} has been destroyed", self.id));
        }
        if !matches!(st.map, Map::Not) {
            drop(st);
            refuse(format!("{what}: buffer {} is mapped", self.id));
        }
        drop(st);
        if !self.usage.contains(need) {
            refuse(format!(
                "{what}: buffer {} with usage {:?} needs {need:?}",
                self.id, self.usage
            ));
        }
    }
    fn bounds(&self, offset: u64, size: u64, what: &str) {
        if offset % COPY_BUFFER_ALIGNMENT != 0 || size % COPY_BUFFER_ALIGNMENT != 0 {
            refuse(format!(
                "{what}: {offset}+{size} in buffer {} is not a multiple of {COPY_BUFFER_ALIGNMENT}",
                self.id
            ));
        }
        if offset.checked_add(size).map_or(true, |e| e > self.size) {
            refuse(format!(
                "{what}: {offset}+{size} overruns buffer {} of {} bytes",
                self.id, self.size
            ));
        }
    }
}
impl Drop for Raw {
    fn drop(&mut self) {
        let st = self.state.get_mut().unwrap_or_else(|e| e.into_inner());
        if let Map::Pending(_, _, cb) = &mut st.map {
            if let Some(cb) = cb.take() {
                cb(Err(BufferAsyncError))
            }
        }
    }
}

impl Buffer {
    /// Identity on its device (not part of wgpu).
    pub fn identity(&self) -> u64 {
        self.raw.id
    }
    /// Write like a shader would (not part of wgpu).
    pub fn poke(&self, offset: usize, data: &[u8]) {
        let mut st = self.raw.state.lock().unwrap();
        st.data[offset..offset + data.len()].copy_from_slice(data);
    }
    pub fn size(&self) -> BufferAddress {
        self.raw.size
    }
    pub fn usage(&self) -> BufferUsages {
        self.raw.usage
    }
    #[track_caller]
    pub fn slice<S: RangeBounds<BufferAddress>>(&self, bounds: S) -> BufferSlice<'_> {
        let lo = match bounds.start_bound() {
            Bound::Included(x) => *x,
            Bound::Excluded(x) => *x + 1,
            Bound::Unbounded => 0,
        };
        let hi = match bounds.end_bound() {
            Bound::Included(x) => *x + 1,
            Bound::Excluded(x) => *x,
            Bound::Unbounded => self.raw.size,
        };
        if lo >= hi {
            panic!("buffer slices can not be empty");
        }
        if hi > self.raw.size {
            panic!(
                "slice {lo}..{hi} out of range for buffer of size {}",
                self.raw.size
            );
        }
        BufferSlice {
            buffer: self,
            range: (lo, hi),
        }
    }
    pub fn unmap(&self) {
        let mut st = self.raw.state.lock().unwrap();
        if st.views > 0 {
            drop(st);
            panic!("You cannot unmap a buffer that still has accessible mapped views");
        }
        let old = std::mem::replace(&mut st.map, Map::Not);
        drop(st);
        if let Map::Pending(_, _, Some(cb)) = old {
            cb(Err(BufferAsyncError))
        }
    }
    pub fn destroy(&self) {
        let mut st = self.raw.state.lock().unwrap();
        st.destroyed = true;
        let old = std::mem::replace(&mut st.map, Map::Not);
        drop(st);
        if let Map::Pending(_, _, Some(cb)) = old {
            cb(Err(BufferAsyncError))
        }
    }
}

#[derive(Copy, Clone, Debug)]
pub struct BufferSlice<'a> {
    buffer: &'a Buffer,
    range: (u64, u64),
}
impl<'a> BufferSlice<'a> {
    #[track_caller]
    pub fn map_async(
        &self,
        mode: MapMode,
        callback: impl FnOnce(Result<(), BufferAsyncError>) + Send + 'static,
    ) {
        let raw = &self.buffer.raw;
        let mut st = raw.state.lock().unwrap();
        if !matches!(st.map, Map::Not) {
            drop(st);
            panic!("Buffer is already mapped");
        }
        let (need, align) = match mode {
            MapMode::Read => (BufferUsages::MAP_READ, 4),
            MapMode::Write => (BufferUsages::MAP_WRITE, 4),
        };
        let (lo, hi) = self.range;
        if st.destroyed
            || !raw.usage.contains(need)
            || lo % MAP_ALIGNMENT != 0
            || (hi - lo) % align != 0
        {
            drop(st);
            refuse(format!(
                "map_async({mode:?}, {lo}..{hi}) of buffer {} with usage {:?}",
                raw.id, raw.usage
            ));
        }
        st.map = Map::Pending(mode, lo..hi, Some(Box::new(callback)));
    }
    #[track_caller]
    fn check_mapped(&self, write: bool) {
        let raw = &self.buffer.raw;
        let mut st = raw.state.lock().unwrap();
        let ok = match &st.map {
            Map::Mapped(m, r) => {
                (!write || *m == MapMode::Write) && r.start <= self.range.0 && self.range.1 <= r.end
            }
            _ => false,
        };
        if !ok || st.destroyed {
            drop(st);
            panic!("tried to get a mapped range of a buffer that is not mapped there");
        }
        st.views += 1;
    }
    fn copy(&self) -> Vec<u8> {
        let st = self.buffer.raw.state.lock().unwrap();
        st.data[self.range.0 as usize..self.range.1 as usize].to_vec()
    }
    #[track_caller]
    pub fn get_mapped_range(&self) -> BufferView<'a> {
        self.check_mapped(false);
        BufferView::new(*self, self.copy())
    }
    #[track_caller]
    pub fn get_mapped_range_mut(&self) -> BufferViewMut<'a> {
        self.check_mapped(true);
        BufferViewMut {
            slice: *self,
            data: self.copy(),
        }
    }
}

/// A view of mapped memory, aligned like mapped memory is.
pub struct BufferView<'a> {
    slice: BufferSlice<'a>,
    words: Vec<u64>,
    len: usize,
}
impl<'a> BufferView<'a> {
    fn new(slice: BufferSlice<'a>, data: Vec<u8>) -> Self {
        let mut words = vec![0u64; data.len().div_ceil(8)];
        for (i, b) in data.iter().enumerate() {
            words[i / 8] |= (*b as u64) << (8 * (i % 8));
        }
        for x in &mut words {
            *x = u64::from_ne_bytes(x.to_le_bytes());
        }
        BufferView {
            slice,
            words,
            len: data.len(),
        }
    }
}
impl Deref for BufferView<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.words.as_ptr() as *const u8, self.len) }
    }
}
impl AsRef<[u8]> for BufferView<'_> {
    fn as_ref(&self) -> &[u8] {
        self
    }
}
impl Drop for BufferView<'_> {
    fn drop(&mut self) {
        self.slice.buffer.raw.state.lock().unwrap().views -= 1;
    }
}
pub struct BufferViewMut<'a> {
    slice: BufferSlice<'a>,
    data: Vec<u8>,
}
impl Deref for BufferViewMut<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.data
    }
}
impl DerefMut for BufferViewMut<'_> {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.data
    }
}
impl AsMut<[u8]> for BufferViewMut<'_> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.data
    }
}
impl Drop for BufferViewMut<'_> {
    fn drop(&mut self) {
        let mut st = self.slice.buffer.raw.state.lock().unwrap();
        st.views -= 1;
        let (lo, hi) = self.slice.range;
        st.data[lo as usize..hi as usize].copy_from_slice(&self.data);
    }
}

// ------------------------------------------------------------------------------------- commands
enum Command {
    Copy(Buffer, u64, Buffer, u64, u64),
    Clear(Buffer, u64, u64),
}
pub struct CommandEncoder {
    commands: Vec<Command>,
}
pub struct CommandBuffer {
    commands: Vec<Command>,
}
impl fmt::Debug for CommandEncoder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "CommandEncoder")
    }
}
impl fmt::Debug for CommandBuffer {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "CommandBuffer")
    }
}
impl CommandEncoder {
    #[track_caller]
    pub fn copy_buffer_to_buffer(
        &mut self,
        source: &Buffer,
        source_offset: BufferAddress,
        destination: &Buffer,
        destination_offset: BufferAddress,
        copy_size: BufferAddress,
    ) {
        if source == destination {
            refuse("copy_buffer_to_buffer: source and destination are the same buffer");
        }
        for (b, off, u) in [
            (source, source_offset, BufferUsages::COPY_SRC),
            (destination, destination_offset, BufferUsages::COPY_DST),
        ] {
            if !b.raw.usage.contains(u) {
                refuse(format!(
                    "copy_buffer_to_buffer: buffer {} with usage {:?} needs {u:?}",
                    b.raw.id, b.raw.usage
                ));
            }
            b.raw.bounds(off, copy_size, "copy_buffer_to_buffer");
        }
        self.commands.push(Command::Copy(
            source.clone(),
            source_offset,
            destination.clone(),
            destination_offset,
            copy_size,
        ));
    }
    #[track_caller]
    pub fn clear_buffer(&mut self, buffer: &Buffer, offset: BufferAddress, size: Option<u64>) {
        if !buffer.raw.usage.contains(BufferUsages::COPY_DST) {
            refuse("clear_buffer: COPY_DST is missing");
        }
        let size = size.unwrap_or(buffer.raw.size.saturating_sub(offset));
        buffer.raw.bounds(offset, size, "clear_buffer");
        self.commands
            .push(Command::Clear(buffer.clone(), offset, size));
    }
    pub fn push_debug_group(&mut self, _: &str) {}
    pub fn pop_debug_group(&mut self) {}
    pub fn insert_debug_marker(&mut self, _: &str) {}
    pub fn finish(self) -> CommandBuffer {
        CommandBuffer {
            commands: self.commands,
        }
    }
}

impl Device {
    #[track_caller]
    pub fn create_buffer(&self, desc: &BufferDescriptor) -> Buffer {
        let (u, max) = (desc.usage, 1u64 << 28);
        if desc.size > max {
            refuse(format!("create_buffer: size {} is over {max}", desc.size));
        }
        if u.is_empty()
            || u.contains(BufferUsages::MAP_READ)
                && !(BufferUsages::MAP_READ | BufferUsages::COPY_DST).contains(u)
            || u.contains(BufferUsages::MAP_WRITE)
                && !(BufferUsages::MAP_WRITE | BufferUsages::COPY_SRC).contains(u)
        {
            refuse(format!("create_buffer: usage {u:?} is not allowed"));
        }
        if desc.mapped_at_creation && desc.size % COPY_BUFFER_ALIGNMENT != 0 {
            refuse("create_buffer: size of a buffer mapped at creation is not aligned");
        }
        let id = self.0.next.fetch_add(1, Ordering::SeqCst) + 1;
        let raw = Arc::new(Raw {
            id,
            usage: u,
            size: desc.size,
            state: Mutex::new(State {
                data: vec![0; desc.size as usize],
                map: if desc.mapped_at_creation {
                    Map::Mapped(MapMode::Write, 0..desc.size)
                } else {
                    Map::Not
                },
                destroyed: false,
                views: 0,
                last: 0,
            }),
        });
        self.0
            .shared
            .lock()
            .unwrap()
            .raws
            .insert(id, Arc::downgrade(&raw));
        Buffer {
            raw,
            _world: self.0.clone(),
        }
    }
    pub fn create_command_encoder(&self, _: &CommandEncoderDescriptor) -> CommandEncoder {
        CommandEncoder { commands: vec![] }
    }
    pub fn poll(&self, maintain: Maintain) -> MaintainResult {
        let submitted = self.0.submitted.load(Ordering::SeqCst);
        let (upto, raws) = {
            let mut s = self.0.shared.lock().unwrap();
            s.raws.retain(|_, r| r.strong_count() > 0);
            let upto = match maintain {
                Maintain::WaitForSubmissionIndex(i) => i.0,
                Maintain::Wait => submitted,
                Maintain::Poll => {
                    s.polls += 1;
                    if s.polls % 3 == 0 {
                        submitted
                    } else {
                        submitted.saturating_sub(1)
                    }
                }
            };
            if upto > submitted {
                drop(s);
                refuse("poll: that submission has not been made on this queue");
            }
            let raws: Vec<_> = s.raws.values().filter_map(|r| r.upgrade()).collect();
            (upto, raws)
        };
        for raw in raws {
            let mut st = raw.state.lock().unwrap();
            if st.last > upto {
                continue;
            }
            if let Map::Pending(mode, range, cb) = &mut st.map {
                let (mode, range, cb) = (*mode, range.clone(), cb.take());
                st.map = Map::Mapped(mode, range);
                drop(st);
                if let Some(cb) = cb {
                    cb(Ok(()));
                }
            }
        }
        if upto == submitted {
            let done = std::mem::take(&mut self.0.shared.lock().unwrap().work_done);
            for f in done {
                f();
            }
            MaintainResult::SubmissionQueueEmpty
        } else {
            MaintainResult::Ok
        }
    }
    pub fn destroy(&self) {}
}

impl Queue {
    #[track_caller]
    pub fn write_buffer(&self, buffer: &Buffer, offset: BufferAddress, data: &[u8]) {
        buffer.raw.usable(BufferUsages::COPY_DST, "write_buffer");
        buffer.raw.bounds(offset, data.len() as u64, "write_buffer");
        // takes effect before anything submitted after it
        let mut st = buffer.raw.state.lock().unwrap();
        st.data[offset as usize..offset as usize + data.len()].copy_from_slice(data);
        st.last = self.0.submitted.load(Ordering::SeqCst) + 1;
    }
    #[track_caller]
    pub fn write_buffer_with<'a>(
        &'a self,
        buffer: &'a Buffer,
        offset: BufferAddress,
        size: BufferSize,
    ) -> Option<QueueWriteBufferView<'a>> {
        buffer.raw.usable(BufferUsages::COPY_DST, "write_buffer_with");
        buffer.raw.bounds(offset, size.get(), "write_buffer_with");
        Some(QueueWriteBufferView {
            queue: self,
            buffer,
            offset,
            data: vec![0; size.get() as usize],
        })
    }
    #[track_caller]
    pub fn submit<I: IntoIterator<Item = CommandBuffer>>(&self, buffers: I) -> SubmissionIndex {
        let all: Vec<CommandBuffer> = buffers.into_iter().collect();
        let index = self.0.submitted.fetch_add(1, Ordering::SeqCst) + 1;
        for c in all.into_iter().flat_map(|b| b.commands) {
            match c {
                Command::Copy(s, so, d, to, n) => {
                    s.raw.usable(BufferUsages::COPY_SRC, "submit");
                    d.raw.usable(BufferUsages::COPY_DST, "submit");
                    let bytes = {
                        let mut st = s.raw.state.lock().unwrap();
                        st.last = index;
                        st.data[so as usize..(so + n) as usize].to_vec()
                    };
                    let mut st = d.raw.state.lock().unwrap();
                    st.last = index;
                    st.data[to as usize..(to + n) as usize].copy_from_slice(&bytes);
                }
                Command::Clear(b, o, n) => {
                    b.raw.usable(BufferUsages::COPY_DST, "submit");
                    let mut st = b.raw.state.lock().unwrap();
                    st.last = index;
                    st.data[o as usize..(o + n) as usize].fill(0);
                }
            }
        }
        SubmissionIndex(index)
    }
    pub fn on_submitted_work_done(&self, callback: impl FnOnce() + Send + 'static) {
        self.0
            .shared
            .lock()
            .unwrap()
            .work_done
            .push(Box::new(callback));
    }
    pub fn get_timestamp_period(&self) -> f32 {
        1.0
    }
}

pub struct QueueWriteBufferView<'a> {
    queue: &'a Queue,
    buffer: &'a Buffer,
    offset: BufferAddress,
    data: Vec<u8>,
}
impl Deref for QueueWriteBufferView<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.data
    }
}
impl DerefMut for QueueWriteBufferView<'_> {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.data
    }
}
impl Drop for QueueWriteBufferView<'_> {
    fn drop(&mut self) {
        let data = std::mem::take(&mut self.data);
        self.queue.write_buffer(self.buffer, self.offset, &data);
    }
}

pub mod util {
    use super::*;
    pub struct BufferInitDescriptor<'a> {
        pub label: Label<'a>,
        pub contents: &'a [u8],
        pub usage: BufferUsages,
    }
    pub trait DeviceExt {
        fn create_buffer_init(&self, desc: &BufferInitDescriptor) -> Buffer;
    }
    impl DeviceExt for Device {
        fn create_buffer_init(&self, desc: &BufferInitDescriptor) -> Buffer {
            let n = (desc.contents.len() as u64).next_multiple_of(COPY_BUFFER_ALIGNMENT);
            let b = self.create_buffer(&BufferDescriptor {
                label: desc.label,
                size: n,
                usage: desc.usage,
                mapped_at_creation: false,
            });
            b.poke(0, desc.contents);
            b
        }
    }
}
