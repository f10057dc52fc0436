----------------------------- MODULE CrabAlloc -----------------------------
(***************************************************************************)
(* Abstract state machine of craballoc's SlabAllocator<R>, its value and   *)
(* buffer handles, at the grain of one public call = one step.             *)
(*                                                                         *)
(* The whole state is one record `s` and every public call is a state      *)
(* transformer Do...(s, args).  The design model (MCCrabAlloc) and the     *)
(* trace specification (TraceAlloc) share these transformers; the trace    *)
(* specification binds the implementation's choices (address of a new      *)
(* allocation, identity and size of a new buffer, source ids) to what was  *)
(* logged and evaluates every guarantee against the logged observations.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

HOLE == -1000000007   \* "this word of an item's encoding is unspecified"

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

----------------------------------------------------------------------------
(* objects: one record per value / array ever created, in creation order    *)
(*   arr   TRUE for arrays            base  first slot                      *)
(*   es    slots per item             n     number of items                 *)
(*   cpu   CPU copy: seq of items     tgt   latest assigned items           *)
(*   pend  indices assigned since the last commit                           *)
(*   alt   item index -> words that may be committed instead of tgt (after  *)
(*         user code panicked while it held a write guard)                  *)
(*   poked items the GPU has written to since they were last committed      *)
(*   bad   user code panicked in it: CPU copy unknown                       *)
(*   st    "live" | "dead" (no strong handle) | "gone" (storage returned)   *)
InitState ==
  [ objs |-> << >>,      \* objects
    hs   |-> << >>,      \* handle id -> [o, kind];  kind: cpu gpu wcpu wgpu
    free |-> {},         \* reclaimed slots
    hi   |-> 0,          \* slots [0, hi) have been handed out at some time
    bufs |-> << >>,      \* buffer id -> contents (seq of words)
    born |-> << >>,      \* buffer id -> number of the commit that made it
    cur  |-> 0,          \* current buffer, 0: none yet
    bh   |-> << >>,      \* buffer handle id -> buffer id
    k    |-> 0,          \* number of commits so far
    must |-> {},         \* objects that certainly have unreported work
    may  |-> {},         \* objects that may be reported as having work
    al   |-> 1,          \* allocator handles in existence
    cts  |-> << >>,      \* buffer id -> creation time it reports
    leaky |-> FALSE,     \* a constructor panicked: some slots have no owner
    nviol |-> 0,         \* (trace validation only) offending events so far
    fuzzy |-> FALSE,     \* ... since the last commit: extra source ids may be reported
    gpu  |-> FALSE,      \* (trace validation only) the run is on the GPU runtime
    twin |-> TRUE,       \* (trace validation only) the reference run has made the same choices
    odd  |-> FALSE,      \* an out-of-range, empty or zero-sized operation has happened
    fault |-> FALSE ]    \* user code has panicked

Size(ob) == ob.es * ob.n
Extent(ob) == IF Size(ob) = 0 THEN {} ELSE ob.base .. (ob.base + Size(ob) - 1)
ExtentOf(base, size) == IF size = 0 THEN {} ELSE base .. (base + size - 1)

Objs(s) == DOMAIN s.objs
Live(s) == {o \in Objs(s) : s.objs[o].st = "live"}
Dead(s) == {o \in Objs(s) : s.objs[o].st = "dead"}
Held(s) == Live(s) \cup Dead(s)                 \* storage not reclaimed yet
Taken(s) == UNION {Extent(s.objs[o]) : o \in Held(s)}

HandlesOn(s, o, kinds) == {h \in DOMAIN s.hs : s.hs[h].o = o /\ s.hs[h].kind \in kinds}
Strong(s, o)    == Cardinality(HandlesOn(s, o, {"cpu", "gpu"}))
CpuStrong(s, o) == Cardinality(HandlesOn(s, o, {"cpu"}))

\* slot number of word j (1-based) of item i (1-based)
Slot(ob, i, j) == ob.base + (i - 1) * ob.es + (j - 1)
ItemSlots(ob, i) == ExtentOf(ob.base + (i - 1) * ob.es, ob.es)
PendSlots(ob) == UNION {ItemSlots(ob, i) : i \in ob.pend}

\* some run of `size` consecutive reclaimed slots exists
FitsFree(s, size) == \E b \in s.free : \A d \in 0 .. (size - 1) : (b + d) \in s.free

MapRange(f) == {f[x] : x \in DOMAIN f}
Drop1(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

----------------------------------------------------------------------------
(* Guarantees about an allocation at `base` of `size` slots.                *)
PlaceExclusive(s, base, size) == ExtentOf(base, size) \cap Taken(s) = {}
PlaceReuses(s, base, size) ==
  (size > 0 /\ FitsFree(s, size)) => ExtentOf(base, size) \subseteq s.free
PlaceNoGap(s, base, size) == size > 0 => base >= 0 /\ base <= s.hi

DoNew(s, h, isArr, es, vals, base, sid) ==
  LET ob == [arr |-> isArr, base |-> base, sid |-> sid, es |-> es, n |-> Len(vals), cpu |-> vals,
             tgt |-> vals, pend |-> DOMAIN vals, st |-> "live", bad |-> FALSE, alt |-> << >>,
             poked |-> {}]
      o == Len(s.objs) + 1
  IN [s EXCEPT !.objs = Append(@, ob),
               !.hs = @ @@ (h :> [o |-> o, kind |-> "cpu"]),
               !.free = @ \ Extent(ob),
               !.hi = IF Size(ob) = 0 THEN @ ELSE Max2(@, base + Size(ob)),
               !.must = @ \cup {o}, !.may = @ \cup {o}]

\* the same, straight on the GPU: there is no CPU copy
DoNewGpu(s, h, isArr, es, vals, base, sid) ==
  [DoNew(s, h, isArr, es, vals, base, sid) EXCEPT !.hs[h].kind = "gpu"]

\* an allocation whose constructor panicked: some slots may have been handed out to nobody
DoLeak(s) == [s EXCEPT !.leaky = TRUE, !.fuzzy = TRUE]

DoClone(s, h, h2) == [s EXCEPT !.hs = @ @@ (h2 :> s.hs[h])]

Noted(s, o) == [s EXCEPT !.must = @ \cup {o}, !.may = @ \cup {o}]
MayNoted(s, o) == [s EXCEPT !.may = @ \cup {o}]

DoDrop(s, h) ==
  LET o == s.hs[h].o
      s1 == [s EXCEPT !.hs = Drop1(@, h)]
  IN IF s.hs[h].kind \notin {"cpu", "gpu"} THEN s1
     ELSE IF Strong(s1, o) = 0
          THEN Noted([s1 EXCEPT !.objs[o].st = "dead"], o)
          ELSE MayNoted(s1, o)

DoDowngrade(s, h, h2) ==
  [s EXCEPT !.hs = @ @@ (h2 :> [o |-> s.hs[h].o,
                                kind |-> IF s.hs[h].kind \in {"cpu", "wcpu"} THEN "wcpu" ELSE "wgpu"])]
DoWeakGpu(s, h, h2) == [s EXCEPT !.hs = @ @@ (h2 :> [o |-> s.hs[h].o, kind |-> "wgpu"])]

CanUpgrade(s, h) ==
  IF s.hs[h].kind = "wcpu" THEN CpuStrong(s, s.hs[h].o) > 0 ELSE Strong(s, s.hs[h].o) > 0
DoUpgrade(s, h, h2) ==
  [s EXCEPT !.hs = @ @@ (h2 :> [o |-> s.hs[h].o,
                                kind |-> IF s.hs[h].kind = "wcpu" THEN "cpu" ELSE "gpu"])]
DoGpuOnly(s, h) == MayNoted([s EXCEPT !.hs[h].kind = "gpu"], s.hs[h].o)

\* assign item i (1-based) of object o; a handle of kind "cpu" also changes the CPU copy
DoAssign(s, o, i, w, cpuToo) ==
  Noted([s EXCEPT !.objs[o].tgt[i] = w,
                  !.objs[o].cpu[i] = IF cpuToo THEN w ELSE @,
                  !.objs[o].alt = Drop1(@, i),
                  !.objs[o].pend = @ \cup {i}], o)

\* user code panicked while it could change the CPU copy of o: the copy is unknown from now on
DoPoison(s, o) == MayNoted([s EXCEPT !.objs[o].bad = TRUE], o)
\* ... and may have queued w
DoMaybe(s, o, i, w) == MayNoted([s EXCEPT !.objs[o].bad = TRUE, !.objs[o].pend = @ \cup {i},
                                          !.objs[o].alt = (i :> w) @@ @], o)

----------------------------------------------------------------------------
(* Commit. `bid` names the resulting buffer, `len` its size.                *)
MustGrow(s) == s.cur = 0 \/ (s.cur # 0 /\ s.hi > Len(s.bufs[s.cur]))
OldWord(s, x) == IF s.cur # 0 /\ x < Len(s.bufs[s.cur]) THEN s.bufs[s.cur][x + 1] ELSE 0
LivePend(s) == UNION {PendSlots(s.objs[o]) : o \in Live(s)}
DeadPend(s) == UNION {PendSlots(s.objs[o]) : o \in Dead(s)}

\* contents a commit must produce (dead owners' queued writes may or may not appear: they
\* are nobody's slots; the design model drops them)
CommitWords(s, len) ==
  LET own == {o \in Live(s) : s.objs[o].pend # {}}
      word(x) == LET c == {o \in own : x \in PendSlots(s.objs[o])}
                 IN IF c = {} THEN OldWord(s, x)
                    ELSE LET ob == s.objs[CHOOSE o \in c : TRUE]
                             d == x - ob.base
                         IN ob.tgt[(d \div ob.es) + 1][(d % ob.es) + 1]
  IN [x \in 1 .. len |-> word(x - 1)]

WordsMatch(expected, actual) ==
  \A j \in DOMAIN expected : expected[j] = HOLE \/ expected[j] = actual[j]
ItemWords(ob, i, words) == [j \in 1 .. ob.es |-> words[Slot(ob, i, j) + 1]]

DoCommit(s, b, bid, words) ==
  LET isnew == bid # s.cur
      dead == Dead(s)
      \* settle which alternative was committed
      settled(ob) == [i \in DOMAIN ob.tgt |->
                        IF i \in DOMAIN ob.alt /\ WordsMatch(ob.alt[i], ItemWords(ob, i, words))
                        THEN ob.alt[i] ELSE ob.tgt[i]]
  IN [s EXCEPT !.objs = [o \in DOMAIN @ |->
                           [s.objs[o] EXCEPT !.pend = {}, !.alt = << >>, !.poked = @ \ s.objs[o].pend,
                                        !.tgt = IF s.objs[o].alt = << >> THEN @ ELSE settled(s.objs[o]),
                                        !.st = IF o \in dead THEN "gone" ELSE @]],
               !.free = @ \cup UNION {Extent(s.objs[o]) : o \in dead},
               !.k = @ + 1,
               !.born = IF isnew THEN @ @@ (bid :> s.k + 1) ELSE @,
               !.bufs = [x \in ((DOMAIN @ \cap MapRange(s.bh)) \cup {bid}) |->
                           IF x = bid THEN words ELSE @[x]],
               !.cur = bid,
               !.bh = (b :> bid) @@ @,
               !.must = {}, !.may = {}, !.fuzzy = FALSE]

\* code running on the GPU writes word w into slot x of the current buffer: that is what the slot
\* holds until the CPU assigns it again
DoPoke(s, bid, x, w) ==
  LET own == {o \in Live(s) : x \in Extent(s.objs[o])}
      o == CHOOSE o \in own : TRUE
      d == x - s.objs[o].base
      i == (d \div s.objs[o].es) + 1
      s1 == [s EXCEPT !.bufs[bid][x + 1] = w]
  IN IF own = {} THEN s1
     ELSE [s1 EXCEPT !.objs[o].poked = @ \cup {i},
                     !.objs[o].tgt[i][(d % s.objs[o].es) + 1] =
                        IF i \in s.objs[o].pend THEN @ ELSE w]

DoGetBuf(s, b) == [s EXCEPT !.bh = (b :> s.cur) @@ @]
DoBufClone(s, b, b2) == [s EXCEPT !.bh = (b2 :> s.bh[b]) @@ @]
DoBufDrop(s, b) == [s EXCEPT !.bh = Drop1(@, b)]
DoSync(s, b) == [s EXCEPT !.bh[b] = s.cur]

Valid(s, b) == s.bh[b] = s.cur
IsNew(s, b) == Valid(s, b) /\ s.born[s.cur] = s.k

\* buffers that must still exist / that may still exist
RefBufs(s) == {s.bh[b] : b \in DOMAIN s.bh} \cup (IF s.al > 0 /\ s.cur # 0 THEN {s.cur} ELSE {})
MayBufs(s) == RefBufs(s) \cup (IF DOMAIN s.bh # {} /\ s.cur # 0 THEN {s.cur} ELSE {})

=============================================================================
