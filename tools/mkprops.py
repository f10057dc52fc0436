#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
AL, VA, RA, RT, WG = ["crates/craballoc/src/" + x for x in ("slab.rs", "value.rs", "range.rs", "runtime.rs", "slab/wgpu_slab.rs")]
SL, ID, AR, OF, DE = "crates/crabslab/src/slab.rs", "crates/crabslab/src/id.rs", "crates/crabslab/src/array.rs", "crates/crabslab/src/offset.rs", "crates/crabslab-derive/src/lib.rs"
IM = "crates/crabslab/src/impl_slab_item/"

p("C01", "A commit makes the buffer mirror every live value",
  "Immediately after a commit, the slots of every live value and of every element of every live array in the returned buffer hold the encoding of the latest value assigned to it through any of its handles (creation, set, modify, write guard, array item assignment, GPU-only handle). This holds whatever was created, assigned, cloned, converted or dropped since the previous commit, and whether or not the commit had to enlarge the buffer.",
  ["histories", "inputs"], "every sequence of create/assign/clone/convert/drop/commit calls, any item sizes and array lengths",
  "the tests commit one or a few u32 values once or twice; they never mix arrays, repeated partial assignments, growth and reuse in one history",
  [AL, VA, RA, RT], [("pending updates", "assignments not yet written to the buffer", VA + " (Gpu::update, GpuArray::updates)"), ("update_sources", "who owes updates", AL)],
  [("Gpu::set / GpuArray::set_item queue an update and notify", VA), ("commit drains the queue, merges and writes", AL)],
  ["buffer contents after SlabAllocator::commit"])
p("C02", "Live allocations are exclusive and lie inside the buffer",
  "At any moment the slot ranges of any two live values or arrays are disjoint, each range has exactly the size of its type times its length, and after a commit each lies completely inside the buffer. A range is never handed out again while any strong handle to its previous owner exists or before a commit has reclaimed it.",
  ["histories", "inputs"], "every allocation/drop/commit history and every mix of sizes",
  "tests allocate single u32 slots; splitting, merging and reusing ranges of different sizes is barely sampled",
  [AL, RA], [("recycles", "free ranges", AL), ("len", "high-water mark", AL), ("capacity", "size of the next buffer", AL)],
  [("RangeManager::remove / add_range", RA), ("maybe_expand_to_fit + increment_len", AL), ("drain_updated_sources recycles only when strong_count is 0", AL)],
  ["Hybrid::id, HybridArray::array, buffer length"])
p("C03", "The buffer changes only at commits and only where assigned",
  "Between commits no buffer content changes, no matter what is created, assigned or dropped. A commit changes only slots belonging to values assigned since the previous commit: every other slot keeps its content exactly, also when the buffer is replaced by a larger one (new space starts zeroed), and a superseded buffer is never written again.",
  ["histories", "inputs"], "every history; every slot of every buffer ever returned",
  "tests look at one or two slots right after the write they made; they never compare untouched slots or old buffers",
  [AL, RT, RA], [("buffer", "current buffer", AL)], [("recreate_buffer copies the old buffer", AL), ("buffer_copy / buffer_write", RT), ("SlabUpdate merging covers no foreign slot", RA)],
  ["contents of every SlabBuffer handle after every call"])
p("C04", "Storage is reclaimed exactly when the last owner is gone",
  "While at least one strong handle to a value or array exists, its storage stays its own and a weak handle upgrades, to the same storage, exactly while a strong handle to the part it refers to (CPU value or GPU slots) exists; once the last strong handle is dropped, the next commit returns exactly that storage to the allocator. No slot is ever lost: repeating any create/commit/drop cycle does not need more space the second time.",
  ["histories"], "every history of clone, downgrade, upgrade, convert, drop, commit",
  "tests drop a value with a single handle once and look at internal lists; clones, weak handles, conversions and long reuse cycles are not covered",
  [AL, VA], [("strong count of the shared update queue", "liveness", VA), ("recycles", "free ranges", AL)],
  [("Drop for Gpu/GpuArray notifies", VA), ("drain_updated_sources checks strong_count", AL), ("WeakHybrid/WeakGpu::upgrade", VA)],
  ["addresses handed out, ref_count, strong_count, upgrade results"])
p("C05", "Freed space is coalesced and reused before the slab grows",
  "After a commit, an allocation request that fits into some contiguous run of reclaimed slots is served from reclaimed slots, regardless of how many separate allocations that run consisted of, of their sizes and of the order in which they were dropped. The slab grows only when no contiguous reclaimed run is large enough.",
  ["histories", "inputs"], "every order and grouping of drops, any sizes",
  "the single test drops neighbouring u32s in two orders and needs an extra explicit defrag",
  [RA, AL], [("recycles.ranges", "list of free ranges", AL)], [("RangeManager::add_range merges touching ranges", RA), ("defrag pass in drain_updated_sources", AL), ("RangeManager::remove", RA)],
  ["address of each new allocation against the reclaimed set"])
p("C06", "Buffer handles report and repair staleness correctly",
  "A buffer handle is valid exactly as long as the allocator has not replaced its buffer; synchronizing returns true exactly when the handle was invalid and afterwards the handle is valid and refers to the allocator's current buffer. A commit's handle reports itself new in exactly that commit which created its buffer, creation times increase with every replacement, the buffer is replaced only when it must grow, and its size never shrinks.",
  ["histories"], "every history of commits, growth, and any number of handles of any age",
  "tests check one invalidation and one is-new transition; old handles across several growths and synchronization are untested",
  [AL], [("invalidation_k / invocation_k / buffer_creation_k", "commit counters", AL)], [("commit / recreate_buffer", AL), ("SlabBuffer::{is_valid,is_new_this_commit,update_if_invalid}", AL)],
  ["SlabBuffer methods, SlabAllocator::get_buffer"])
p("C07", "Pending-update reporting is exact",
  "The allocator reports queued updates exactly when something was created, assigned or lost a handle since the last commit, and the reported source ids are exactly the identifiers of those sources; asking never loses or invents pending work. After a commit, nothing is reported until the next change; every source has its own identifier, shared by all its clones.",
  ["histories"], "every interleaving of queries with create/assign/clone/drop/commit",
  "one test calls has_queued_updates twice; get_updated_source_ids is never exercised",
  [AL, VA], [("notifier channel + update_queue", "set of changed sources", AL)], [("get_updated_source_ids / has_queued_updates", AL), ("notify on set and drop", VA)],
  ["has_queued_updates, get_updated_source_ids, notifier_index"])
p("C08", "CPU handles of one value agree and count correctly",
  "All clones and upgraded weak handles of a value or array read the same CPU value, which is the latest one assigned through any of them, and modify hands out and returns what its closure saw and produced. A write guard that is only read queues nothing, one that was written queues the final value, and reference counts equal the number of strong handles in existence (including GPU-only ones).",
  ["histories", "inputs"], "every history over clones, weak handles, guards and conversions",
  "tests use one handle per value, no clones, no weak handles, one guard",
  [VA], [("cpu_value", "shared CPU copy", VA)], [("Hybrid/HybridArray/WeakHybrid/HybridWriteGuard", VA)], ["get, get_vec, ref_count, upgrade, guard results"])
p("C09", "Out-of-range and empty array operations are harmless",
  "Assigning to or reading an array index outside the array changes nothing, queues nothing that can be committed and leaves every later call working; the caller gets an empty answer (None, or the null id). Arrays of length zero and zero-sized items can be created, committed, cloned and dropped at any time without occupying slots, without failing and without disturbing other values.",
  ["inputs", "histories"], "every index, every length including zero, every item size including zero, at any point of a history",
  "no test creates an empty array, a zero-sized item, or uses an index out of range",
  [VA, AL, AR], [], [("HybridArray::modify / set_item, GpuArray::set_item", VA), ("allocate / allocate_array", AL), ("Array::at", AR)], ["results of the calls, next commit"])
p("C10", "Concurrent updates are never lost, torn or reverted",
  "With any number of threads creating, assigning, dropping and committing at the same time, every assignment that returned before a commit was called is visible (or superseded by a later assignment) in the buffer when that commit returns, and no slot ever goes back from a newer to an older assignment. After all threads finish, one more commit makes the buffer equal to what the handles read on the CPU side.",
  ["schedules"], "every interleaving of the threads' synchronization operations",
  "all tests are single threaded",
  [AL, VA], [("notifier / update_sources / update_queue", "shared work list", AL)], [("order of queue-update, register and notify", VA + ", " + AL), ("commit", AL)], ["buffer contents and CPU values at the end and after each commit"])
p("C11", "Concurrent allocation is exclusive, in bounds and never fails",
  "Values and arrays created by different threads at the same time never share a slot with each other or with a live value, and no concurrently running or later commit fails because an allocation lies outside the buffer. No combination of concurrent calls deadlocks or panics.",
  ["schedules"], "every interleaving of creations, drops and commits",
  "all tests are single threaded",
  [AL], [("len / capacity / needs_expansion", "growth state", AL), ("recycles", "free ranges", AL)], [("allocate / allocate_array / maybe_expand_to_fit", AL), ("commit", AL)], ["addresses, panics, deadlocks under controlled schedules"])
p("C12", "Concurrent drops always lead to reclamation, never too early",
  "However drops of handles interleave with commits, clones, upgrades and assignments in other threads, storage is not reused while any strong handle exists, and once the last strong handle's drop has returned, the next commit makes the storage available again.",
  ["schedules"], "every interleaving of drop, clone, upgrade and commit",
  "all tests are single threaded",
  [AL, VA], [("strong count and drop notification", "liveness", VA)], [("Drop for Gpu/GpuArray", VA), ("drain_updated_sources", AL)], ["addresses handed out after the concurrent phase"])
p("C13", "Buffer handles synchronize correctly during concurrent commits",
  "A thread may query, synchronize, or fetch a buffer handle while other threads commit and grow the slab: the calls never fail, a handle obtained or synchronized refers to a buffer that was current at some moment during the call, and a handle found invalid is moved to a newer buffer.",
  ["schedules"], "every interleaving of handle operations with commits that replace the buffer",
  "all tests are single threaded",
  [AL], [("invalidation_k and the shared current buffer", "staleness", AL)], [("recreate_buffer / update_if_invalid / get_buffer", AL)], ["results of the calls under controlled schedules"])
p("C14", "Range managers represent exactly the set of free numbers",
  "A range manager that is given disjoint ranges and asked for blocks always holds exactly the numbers that were added and not yet taken, each once; a request for n numbers returns a contiguous block of exactly n held numbers whenever some contiguous held run is that long, and otherwise returns nothing and changes nothing. Held ranges never overlap or touch each other, and length, emptiness and intersection of a range agree with the set of numbers it denotes.",
  ["histories", "inputs"], "every sequence of additions and removals of any sizes",
  "tests add ranges only through a few allocator calls; remove with splitting and many ranges is unexplored",
  [RA], [("RangeManager::ranges", "list of inclusive ranges", RA)], [("add_range / remove / should_merge_with / union", RA)], ["RangeManager<Range> public API"])
p("C15", "Merging queued writes preserves last-writer-wins",
  "Applying the merged set of queued writes to a buffer, in any order, gives the same content as applying the original writes one after the other in the order they were queued; merged writes are pairwise disjoint, cover no slot that no original write covered, and each carries exactly as many words as the slots it names.",
  ["inputs", "histories"], "every sequence of writes with any overlaps and nesting",
  "only whole-array writes followed by inner item writes occur in tests, at most one item",
  [RA, RT, AR], [("RangeManager<SlabUpdate>", "pending writes", RA)], [("SlabUpdate::union / intersects / add_range", RA)], ["RangeManager<SlabUpdate> public API"])
p("C16", "Growable slabs append without disturbing what is there",
  "Appending or preallocating on a growable slab returns consecutive, non-overlapping ids and arrays of exactly the needed size starting at the old end; earlier contents never change, preallocated space is zero, appended items read back equal and the length grows by exactly the items' size. Reserving or expanding never shrinks or fails, leaves length and contents alone, and afterwards the capacity is at least what was asked for.",
  ["histories", "inputs"], "every sequence of append, append_array, allocate, allocate_array, reserve, expand, write with any types",
  "tests append a handful of items to an empty Vec; reserve and preallocation are untested",
  [SL], [], [("GrowableSlab provided methods, impl for Vec<u32>, CpuSlab", SL)], ["GrowableSlab / CpuSlab public API"])
p("C17", "Slab reads and writes touch exactly the addressed slots",
  "Writing an item, slice or array changes only the slots it occupies, starting at the given position, and returns the position after it; writing through an array handle never goes beyond that array, and does nothing if there is too little data. Containment is true exactly when the whole item fits, a checked read of anything that does not fit (including the null id) yields the default, and otherwise yields the decoding of exactly the addressed slots, with the same results through slices, vectors and the CPU slab wrapper.",
  ["inputs", "histories"], "every slab length, position, type and length of data, including boundary and out-of-range positions",
  "tests write a few in-range items and check contains for one slab",
  [SL, "crates/crabslab/src/lib.rs"], [], [("Slab provided methods, impls for [u32], Vec<u32>, CpuSlab", SL)], ["Slab public API"])
p("C18", "Every built-in item type round-trips losslessly at any position",
  "For every built-in item type (integers, floats, bool, ids, arrays, options, fixed arrays, tuples, phantom data, vector-math types) any value written at any position over any old content reads back bit-for-bit equal, occupies exactly the declared number of slots, leaves its neighbours alone and returns the next position. The slot layout is the documented one: little-endian words for wide numbers, sign extension for narrow ones, fields in order, a leading tag for options.",
  ["inputs"], "all values of all built-in types, any offset, any prior content",
  "one test writes small values of each primitive at fixed places of a zeroed slab",
  [IM + "primitives.rs", IM + "mod.rs", IM + "tuples.rs", IM + "glam.rs", ID, AR], [], [("SlabItem impls", IM)], ["SlabItem::{SLAB_SIZE, read_slab, write_slab}"])
p("C19", "Derived item layouts are consistent for any type definition",
  "For any struct, tuple struct or enum built from item types, the derived size is the sum of the field sizes (for enums one plus the largest variant), fields are laid out in declaration order, every value of every variant round-trips over any old content, writing reports exactly the derived size, and an unknown variant tag reads as the default. Derived field offsets address exactly the field they name, also when chained through nested structs.",
  ["programs", "inputs"], "every type definition the derive macro accepts and every value of it",
  "a handful of hand-written types are derived in tests; offsets are tested in one doc example",
  [DE, OF], [], [("derive_from_slab_struct / derive_from_slab_enum / impl_slabitem_tuples", DE), ("Offset arithmetic", OF)], ["SlabItem impls and OFFSET_OF_*/SLAB_SIZE_OF_* of derived types"])
p("C20", "Ids and arrays address slots consistently",
  "The i-th element of an array is at the array's start plus i item sizes for every i below its length, and is the null id for every other i; iterating yields exactly these ids in order, and an array's raw-slot view and sub-slab cover exactly these elements. Null ids and arrays are recognised as such exactly when they are null, ids convert, compare, hash and add like the numbers they hold, and the union of two raw arrays is the smallest array covering both.",
  ["inputs"], "all starts, lengths, item sizes and indices in the representable range",
  "tests index arrays of two to six elements at fixed places",
  [AR, ID, OF], [], [("Array::{at,iter,into_u32_array,sub_slab,union,contains_index}", AR), ("Id ops", ID)], ["Array / Id public API"])
p("C21", "The GPU runtime transfers exactly what the CPU reference does",
  "Driven by the same history of calls, the GPU runtime leaves its buffers with the same contents, sizes and validity as the CPU reference runtime, and issues only commands that are legal for the device (in bounds, aligned, allowed usages). Reading a range or a typed array back from the GPU returns exactly the committed contents of that range, including empty ranges, and reading before the first commit is reported as an error.",
  ["histories", "inputs"], "every allocator history and every read range",
  "no test runs the GPU runtime at all (no GPU in CI)",
  [RT, WG], [], [("impl IsRuntime for WgpuRuntime", RT), ("SlabAllocator<WgpuRuntime>::{read,read_array}", WG)], ["commands received by a recording stand-in for the wgpu crate; results of read/read_array"])
p("C22", "Buffers are released once nothing refers to them",
  "A buffer that has been superseded is released as soon as the last handle to it is dropped or synchronized away, and when the allocator, its clones and all buffer handles are gone every buffer ever created has been released; a buffer is never released while the allocator or a handle still refers to it.",
  ["histories"], "every history of commits, growth, handle clones and drops, in any drop order of allocator, values and handles",
  "no test observes buffer destruction",
  [AL], [("buffer cell shared between allocator and handles", "ownership of the current buffer", AL)], [("SlabBuffer / recreate_buffer ownership", AL)], ["destructor of the buffers handed out by a user-supplied runtime"])
p("C23", "Reading a buffer range returns exactly that range",
  "Reading back any kind of range (bounded, inclusive, exclusive, open-ended, empty, full) from a buffer of the CPU runtime returns exactly the words in that range, in order and nothing else, and does not change the buffer.",
  ["inputs", "histories"], "every range form and every buffer length and content",
  "buffer_read is never called by a test",
  [RT], [], [("range_to_indices_and_len, CpuRuntime::buffer_read", RT)], ["IsRuntime::buffer_read"])
p("C24", "A panic in user code stays confined to the value it happened in",
  "When user code called by the library panics (a modify closure, code holding a write guard, an item's encoder or clone), every other value keeps working, keeps its content and is still committed correctly, and later commits and creations do not fail. The buffer never shows a mixture of old and new words of the value that panicked: each of its committed elements is the encoding of one value.",
  ["fault_sequences", "histories"], "a panic injected at any user callback at any point of any history",
  "no test injects a panic",
  [VA, AL], [("locks taken around user code", "poisoning", VA)], [("Hybrid::modify, HybridWriteGuard::drop, HybridArray::modify, Gpu::set", VA)], ["results of later calls and commits"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
