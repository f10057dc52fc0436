----------------------------- MODULE TraceAlloc -----------------------------
(***************************************************************************)
(* Trace validation of the real allocator against CrabAlloc.               *)
(*                                                                         *)
(* The trace file holds many recorded programs one after the other, each   *)
(* started by a "reset" event.  Every event is one public call with its    *)
(* arguments, its results and a projection of everything observable        *)
(* afterwards (`o`).  For each event the state transformer of CrabAlloc is *)
(* applied, and the set of properties the event violates is computed.      *)
(* The trace is accepted if no event violates anything.                    *)
(***************************************************************************)
EXTENDS CrabAlloc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, s

HasKey(r, k) == k \in DOMAIN r
Ob(st, h) == st.objs[st.hs[h].o]
Range2Set(q) == {q[i] : i \in DOMAIN q}

V(cond, ids) == IF cond THEN {} ELSE ids

AllocProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C15", "C22", "C24"}

----------------------------------------------------------------------------
(* next state *)
ItemIdx(e) == e.i + 1
InRange(st, e) == e.i >= 0 /\ e.i < Ob(st, e.h).n

BufWords(st, e) ==
  LET c == {i \in DOMAIN e.o.bw : e.o.bw[i].bid = e.bid}
  IN IF c = {} THEN st.bufs[e.bid] ELSE e.o.bw[CHOOSE i \in c : TRUE].w
KnownBuf(st, e) == e.bid \in DOMAIN st.bufs \/ \E i \in DOMAIN e.o.bw : e.o.bw[i].bid = e.bid

NextState(st, e) ==
  CASE e.e = "reset" -> [InitState EXCEPT !.gpu = HasKey(e, "gpu") /\ e.gpu]
    [] e.e = "new" ->
         LET t == IF e.kind = "gpu" THEN DoNewGpu(st, e.h, e.arr, e.es, e.vals, e.base, e.sid)
                  ELSE DoNew(st, e.h, e.arr, e.es, e.vals, e.base, e.sid)
         IN IF Len(e.vals) = 0 \/ e.es = 0 THEN [t EXCEPT !.odd = TRUE] ELSE t
    [] e.e = "leak" -> [DoLeak(st) EXCEPT !.fault = TRUE]
    [] e.e = "clone" -> DoClone(st, e.h, e.h2)
    [] e.e = "drop" -> DoDrop(st, e.h)
    [] e.e = "weak" -> DoDowngrade(st, e.h, e.h2)
    [] e.e = "weakgpu" -> DoWeakGpu(st, e.h, e.h2)
    [] e.e = "up" -> IF e.ok THEN DoUpgrade(st, e.h, e.h2) ELSE st
    [] e.e = "gpuonly" -> DoGpuOnly(st, e.h)
    [] e.e \in {"set", "mod"} -> DoAssign(st, st.hs[e.h].o, 1, e.w, TRUE)
    [] e.e = "gset" -> DoAssign(st, st.hs[e.h].o, 1, e.w, FALSE)
    \* a write guard that is open over several calls: the assignment happens when it is given back
    [] e.e = "gmut" -> MayNoted(st, st.hs[e.h].o)
    [] e.e \in {"guard", "gclose"} -> IF e.mut THEN DoAssign(st, st.hs[e.h].o, 1, e.w, TRUE) ELSE st
    [] e.e \in {"aset", "amod"} ->
         IF InRange(st, e) THEN DoAssign(st, st.hs[e.h].o, ItemIdx(e), e.w, TRUE)
         ELSE [st EXCEPT !.odd = TRUE]
    [] e.e = "gaset" ->
         IF InRange(st, e) THEN DoAssign(st, st.hs[e.h].o, ItemIdx(e), e.w, FALSE)
         ELSE [st EXCEPT !.odd = TRUE]
    [] e.e \in {"aget", "aid"} -> IF InRange(st, e) THEN st ELSE [st EXCEPT !.odd = TRUE]
    [] e.e = "commit" -> DoCommit(st, e.b, e.bid, BufWords(st, e))
    [] e.e = "poke" -> DoPoke(st, e.bid, e.x, e.w)
    [] e.e = "getbuf" -> IF e.bid = 0 THEN st ELSE DoGetBuf(st, e.b)
    [] e.e = "bclone" -> DoBufClone(st, e.b, e.b2)
    [] e.e = "bdrop" -> DoBufDrop(st, e.b)
    [] e.e = "bsync" -> DoSync(st, e.b)
    [] e.e = "aclone" -> [st EXCEPT !.al = @ + 1]
    [] e.e = "adrop" -> [st EXCEPT !.al = @ - 1]
    \* user code panicked
    [] e.e = "fpoison" -> [DoPoison(st, st.hs[e.h].o) EXCEPT !.fault = TRUE]
    [] e.e = "fmaybe" -> [DoMaybe(st, st.hs[e.h].o, ItemIdx(e), e.w) EXCEPT !.fault = TRUE]
    [] e.e = "fault" -> [st EXCEPT !.fault = TRUE]
    [] OTHER -> st

\* contents of buffers, once created, are learned at commits; creation times when first seen
Learn(t, e) ==
  IF ~HasKey(e, "o") THEN t
  ELSE LET seen == {i \in DOMAIN e.o.bh : e.o.bh[i].bid \notin DOMAIN t.cts}
       IN [t EXCEPT !.cts = [x \in {e.o.bh[i].bid : i \in seen} |->
                               e.o.bh[CHOOSE i \in seen : e.o.bh[i].bid = x].ct] @@ @]

----------------------------------------------------------------------------
(* what an event violates, given the state before (st) and after (t) *)
NewViol(st, e) ==
  LET size == e.es * Len(e.vals)
      ob == [base |-> e.base, es |-> e.es]
  IN V(PlaceExclusive(st, e.base, size), {"C02", "C04"})
     \cup V(st.leaky \/ PlaceReuses(st, e.base, size), {"C05", "C04"})
     \cup V(st.leaky \/ PlaceNoGap(st, e.base, size), {"C04"})
     \cup V(e.n = Len(e.vals), {"C02"} \cup (IF Len(e.vals) = 0 THEN {"C09"} ELSE {}))
     \cup V(\A o \in Objs(st) : st.objs[o].sid # e.sid, {"C07"})
     \cup (IF ~e.arr THEN {}
           ELSE V(\A i \in DOMAIN e.ids : e.ids[i] = e.base + (i - 1) * e.es, {"C02"})
                \cup V(e.idx = -1, {"C09"}))

ReadWords(ws, lo, hi) == SubSeq(ws, lo + 1, hi)

\* the merged writes a commit handed to the runtime: pairwise disjoint, as many words as slots,
\* nothing nobody assigned, everything that was assigned, last writer wins
WriteViol(st, e) ==
  LET wr == e.wr
      sl(i) == wr[i].a .. (wr[i].a + wr[i].l - 1)
      good(o, i, j) == LET ob == st.objs[o]
                           x == Slot(ob, i, j)
                           exp == ob.tgt[i][j]
                       IN \E k \in DOMAIN wr :
                            /\ x \in sl(k)
                            /\ exp = HOLE \/ i \in DOMAIN ob.alt \/ wr[k].w[x - wr[k].a + 1] = exp
  IN IF \E i \in DOMAIN wr : Len(wr[i].w) # wr[i].l THEN {"C15"}
     ELSE V(\A i, j \in DOMAIN wr : i < j => sl(i) \cap sl(j) = {}, {"C15"})
          \cup V(UNION {sl(i) : i \in DOMAIN wr} \subseteq LivePend(st) \cup DeadPend(st), {"C15"})
          \cup V(\A o \in Live(st) : \A i \in st.objs[o].pend : \A j \in 1 .. st.objs[o].es : good(o, i, j),
                {"C15"})

CommitViol(st, e) ==
  IF ~KnownBuf(st, e) THEN {"C01", "C06"}
  ELSE
  LET words == BufWords(st, e)
      len == Len(words)
      live == Live(st)
      inb == \A o \in live : Size(st.objs[o]) = 0 \/ st.objs[o].base + Size(st.objs[o]) <= len
      pend == LivePend(st) \cup DeadPend(st)
      goodItem(ob, i) == LET w == ItemWords(ob, i, words)
                         IN \/ WordsMatch(ob.tgt[i], w)
                            \/ i \in DOMAIN ob.alt /\ WordsMatch(ob.alt[i], w)
  IN V(inb, {"C02", "C01"})
     \cup (IF ~inb THEN {}
           ELSE UNION {V(\A i \in 1 .. st.objs[o].n : st.objs[o].es = 0 \/ goodItem(st.objs[o], i),
                         IF st.objs[o].bad THEN {"C24"}
                         ELSE {"C01"}) : o \in live})
     \cup V(\A x \in 0 .. (len - 1) : x \in pend \/ words[x + 1] = OldWord(st, x), {"C03"})
     \cup V(e.bid # st.cur => MustGrow(st) \/ st.leaky, {"C06"})
     \cup V(MustGrow(st) => e.bid # st.cur, {"C06"})
     \cup V(st.cur # 0 => len >= Len(st.bufs[st.cur]), {"C06"})
     \cup (IF HasKey(e, "wr") THEN WriteViol(st, e) ELSE {})

Sids(st, os) == {st.objs[o].sid : o \in os}

EventViol(st, e) ==
  CASE e.e = "panic" -> AllocProps
    [] e.e = "stuck" -> AllocProps
    [] e.e = "new" -> NewViol(st, e)
    [] e.e = "clone" -> V(e.sid = Ob(st, e.h).sid, {"C07"})
    [] e.e = "up" ->
         V(e.ok = CanUpgrade(st, e.h), {"C04", "C08"})
         \cup V(e.ok => e.base = Ob(st, e.h).base \/ Size(Ob(st, e.h)) = 0, {"C04"})
    [] e.e = "mod" -> V(e.saw = Ob(st, e.h).cpu[1], {"C08"}) \cup V(e.ret, {"C08"})
    [] e.e = "gmut" -> V(e.saw = e.w, {"C08"})
    [] e.e \in {"guard", "gopen"} -> V(e.saw = Ob(st, e.h).cpu[1], {"C08"})
    [] e.e \in {"aset", "amod"} ->
         LET ob == Ob(st, e.h)
         IN IF InRange(st, e)
            THEN V(e.ok, {"C08"}) \cup V(e.ok => e.saw = ob.cpu[ItemIdx(e)], {"C08"})
            ELSE V(~e.ok, {"C09"})
    [] e.e = "aget" ->
         LET ob == Ob(st, e.h)
         IN IF InRange(st, e)
            THEN V(e.ok /\ e.w = ob.cpu[ItemIdx(e)], {"C08"})
            ELSE V(~e.ok, {"C09"})
    [] e.e = "aid" ->
         LET ob == Ob(st, e.h)
         IN IF InRange(st, e) THEN V(e.id = ob.base + e.i * ob.es, {"C02"}) ELSE V(e.id = -1, {"C09"})
    [] e.e = "commit" -> CommitViol(st, e)
    [] e.e = "getbuf" -> V(e.bid = st.cur, {"C06"})
    [] e.e = "bsync" -> V(e.ret = ~Valid(st, e.b), {"C06"}) \cup V(e.bid = st.cur, {"C06"})
    [] e.e = "ids" ->
         V(Sids(st, st.must) \subseteq Range2Set(e.ids), {"C07"})
         \cup V(st.fuzzy \/ Range2Set(e.ids) \subseteq Sids(st, st.may), {"C07"})
    [] e.e = "read" ->
         LET ws == st.bufs[st.bh[e.b]]
         IN V(e.ok /\ e.len = Len(ws) /\ e.w = ReadWords(ws, e.lo, e.hi), {"C23"})
    \* reading back through the allocator; an open end includes at least everything allocated
    [] e.e = "aread" ->
         IF st.cur = 0 THEN V(~e.ok, {"C21"})
         ELSE LET ws == st.bufs[st.cur]
                  n == IF e.open THEN e.lo + Len(e.w) ELSE e.hi
              IN V(e.ok, {"C21"})
                 \cup (IF ~e.ok THEN {}
                       ELSE V(n >= e.hi /\ n <= Len(ws), {"C21"})
                            \cup V(n > Len(ws) \/ e.w = ReadWords(ws, e.lo, n), {"C21"}))
    \* a typed array, read back; items that have not been committed yet can be anything
    [] e.e = "rarr" ->
         LET ob == Ob(st, e.h)
         IN IF st.cur = 0 THEN V(~e.ok, {"C21"})
            ELSE V(e.ok /\ Len(e.w) = ob.n, {"C21"})
                 \cup V(e.ok /\ Len(e.w) = ob.n =>
                          \A i \in 1 .. ob.n : \/ ob.es = 0 \/ i \in ob.pend \/ i \in ob.poked
                                               \/ WordsMatch(e.w[i], ItemWords(ob, i, st.bufs[st.cur])),
                        {"C21"})
    [] e.e = "rnull" -> IF st.cur = 0 THEN V(~e.ok, {"C21"}) ELSE V(e.ok /\ e.w = << >>, {"C21"})
    [] e.e = "poke" -> V(e.bid = st.cur, {"C06"})
    [] OTHER -> {}

HandleViol(t, r) ==
  LET ob == t.objs[t.hs[r.h].o] IN
  V(r.c = -1 \/ r.c = Strong(t, t.hs[r.h].o), {"C08"})
  \cup V(r.s = ob.sid, {"C07", "C08"})
  \cup V(r.k = t.hs[r.h].kind, {"C08"})
  \cup (IF r.k # "cpu" \/ ob.bad \/ r.lk THEN {}
        ELSE V(~r.p, AllocProps) \cup (IF r.p THEN {} ELSE V(r.v = ob.cpu, {"C08"})))
  \cup V(r.id = -2 \/ r.id = ob.base \/ Size(ob) = 0, {"C02", "C04"})

BufViol(t, r) ==
  IF r.b \notin DOMAIN t.bh THEN {"C06"}
  ELSE V(r.bid = t.bh[r.b], {"C06"})
       \cup V(r.valid = Valid(t, r.b), {"C06"})
       \cup V(r.new = IsNew(t, r.b), {"C06"})
       \cup V(r.bid \in DOMAIN t.cts => t.cts[r.bid] = r.ct, {"C06"})
       \cup V(\A x \in DOMAIN t.cts : x < r.bid => t.cts[x] < r.ct, {"C06"})

ObsViol(st, t, e) ==
  LET o == e.o IN
  (IF o.na THEN {}
   ELSE V(t.must # {} => o.q, {"C07"}) \cup V(o.q => t.may # {} \/ t.fuzzy, {"C07"})
        \cup V(o.cur = t.cur, {"C06"}))
  \cup UNION {HandleViol(t, o.hs[i]) : i \in DOMAIN o.hs}
  \cup UNION {BufViol(t, o.bh[i]) : i \in DOMAIN o.bh}
  \cup V(\A i \in DOMAIN o.bw : e.e \in {"commit", "poke"} /\ o.bw[i].bid = e.bid, {"C03"})
  \cup V(e.e = "poke" => \A i \in DOMAIN o.bw : o.bw[i].w = t.bufs[e.bid], {"C03"})
  \cup V(RefBufs(t) \subseteq Range2Set(o.al), {"C22"})
  \cup V(Range2Set(o.al) \subseteq MayBufs(t), {"C22"})

----------------------------------------------------------------------------
(* Runs on the GPU runtime carry, in `ref`, what the CPU reference runtime did with the same call. *)
(* Until the two make different free choices (an address), everything about their buffers agrees. *)
InStep(st, e) == st.twin /\ HasKey(e, "ref")
SameChoice(st, e) ==
  /\ InStep(st, e)
  /\ e.e = "new" /\ e.ref.e = "new" => e.base = e.ref.base \/ e.es * Len(e.vals) = 0
RefViol(st, e) ==
  IF ~InStep(st, e) THEN {}
  ELSE LET r == e.ref IN
       IF e.e = "panic" /\ r.e = "panic" THEN {}
       ELSE IF e.e # r.e THEN {"C21"}
       ELSE IF ~HasKey(e, "o") \/ ~HasKey(r, "o") THEN {}
       ELSE LET o == e.o  q == r.o IN
            V(Len(o.bw) = Len(q.bw) /\ \A i \in DOMAIN o.bw : o.bw[i].w = q.bw[i].w, {"C21"})
            \cup V(Len(o.al) = Len(q.al), {"C21"})
            \cup V(Len(o.bh) = Len(q.bh)
                     /\ \A i \in DOMAIN o.bh : o.bh[i].b = q.bh[i].b /\ o.bh[i].valid = q.bh[i].valid
                                               /\ o.bh[i].new = q.bh[i].new, {"C21"})
DevViol(e) == IF HasKey(e, "dev") THEN {"C21"} ELSE {}

\* damage after an out-of-range/empty operation or a fault also violates C09/C24
Spread(st, ids) ==
  IF ids = {} THEN {}
  ELSE ids \cup (IF st.odd THEN {"C09"} ELSE {}) \cup (IF st.fault THEN {"C24"} ELSE {})
           \cup (IF st.gpu THEN {"C21"} ELSE {})

Viol(st, t, e) ==
  IF e.e = "reset" THEN {}
  ELSE Spread(t, RefViol(t, e) \cup DevViol(e) \cup EventViol(st, e) \cup (IF HasKey(e, "o") THEN ObsViol(st, t, e) ELSE {}))

----------------------------------------------------------------------------
Init == l = 1 /\ s = InitState

\* Once an event is not explainable the rest of its program is judged against a state that
\* may be off, so only the first few offending events of a program are reported.
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF HasKey(s, "lost") /\ e.e # "reset" THEN l' = l + 1 /\ s' = s
     ELSE LET st == IF e.e = "reset" THEN InitState ELSE s
              bad0 == IF e.e = "commit" /\ ~KnownBuf(st, e) THEN {"C01", "C06"} ELSE {}
              t == IF bad0 # {} \/ e.e \in {"panic", "stuck"} THEN st
                   ELSE [Learn(NextState(st, e), e) EXCEPT !.twin = @ /\ (e.e = "reset" \/ SameChoice(st, e)
                                                                          \/ ~HasKey(e, "ref"))]
              v == IF bad0 # {} THEN bad0 ELSE Viol(st, t, e)
          IN /\ l' = l + 1
             /\ IF v = {} THEN s' = t
                ELSE /\ PrintT("VIOL " \o ToString(l) \o " " \o ToString(v))
                     /\ s' = IF e.e \in {"panic", "stuck"} \/ bad0 # {} \/ t.nviol >= 3
                             THEN [lost |-> TRUE]
                             ELSE [t EXCEPT !.nviol = @ + 1]

Spec == Init /\ [][Next]_<<l, s>>
Done == PrintT("DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
