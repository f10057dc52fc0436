---------------------------- MODULE MCCrabAlloc ----------------------------
(***************************************************************************)
(* The design: CrabAlloc driven by every sequence of calls within bounds.  *)
(*                                                                         *)
(* TLC checks that the guarantees about an allocation, a commit and so on  *)
(* (which TraceAlloc evaluates on the real code) are strong enough for     *)
(* what users rely on, stated below as invariants over the whole state,    *)
(* and prints every transition as a program for the real code.             *)
(*                                                                         *)
(* Data does not influence control, so states that differ only in the      *)
(* words stored are the same state (Shape).                                *)
(***************************************************************************)
EXTENDS CrabAlloc, Json

CONSTANTS Ops,        \* operations that are enabled
          Items,      \* numbers of the item types to choose from
          Lens,       \* array lengths
          MaxH, MaxB, MaxObj, MaxOps,
          AnyPlace,   \* TRUE: every place the guarantees allow; FALSE: the lowest one
          EMIT

VARIABLES s, hist
vars == <<s, hist>>

\* slots of an item of a type, as numbered by the harness
Slots(t) == <<0, 1, 2, 3, 4, 3, 3>>[t + 1]
On(op) == op \in Ops
Fresh(f, max) == {h \in 1 .. max : h \notin DOMAIN f /\ \A g \in 1 .. (h - 1) : g \in DOMAIN f}
CapFor(n) == LET RECURSIVE up(_)
                 up(c) == IF c >= n THEN c ELSE up(2 * c)
             IN up(1)

\* places the guarantees allow
Places(size) ==
  IF size = 0 THEN {0}
  ELSE {b \in 0 .. s.hi : /\ PlaceExclusive(s, b, size) /\ PlaceReuses(s, b, size) /\ PlaceNoGap(s, b, size)
                          \* partly reclaimed, partly fresh runs are not handed out
                          /\ ExtentOf(b, size) \subseteq s.free \/ b = s.hi}
Chosen(size) == LET p == Places(size) IN IF AnyPlace THEN p ELSE {CHOOSE b \in p : \A c \in p : b <= c}

V0 == 10 * (Len(hist) + 1)
Word(es, d) == [j \in 1 .. es |-> V0 + d]

Do(op, t) == s' = t /\ hist' = Append(hist, op)

Alive == s.al > 0

New == /\ On("new") /\ Alive /\ Len(s.objs) < MaxObj
       /\ \E h \in Fresh(s.hs, MaxH), it \in Items :
            LET es == Slots(it) IN
            \E b \in Chosen(es) :
               Do(<<"new", h, it, V0>>, DoNew(s, h, FALSE, es, <<Word(es, 0)>>, b, Len(s.objs)))
Arr == /\ On("arr") /\ Alive /\ Len(s.objs) < MaxObj
       /\ \E h \in Fresh(s.hs, MaxH), it \in Items, n \in Lens :
            LET es == Slots(it) IN
            \E b \in Chosen(es * n) :
               Do(<<"arr", h, it, [i \in 1 .. n |-> V0 + i - 1]>>,
                  DoNew(s, h, TRUE, es, [i \in 1 .. n |-> Word(es, i - 1)], b, Len(s.objs)))

NewG == /\ On("newg") /\ Alive /\ Len(s.objs) < MaxObj
        /\ \E h \in Fresh(s.hs, MaxH), it \in Items :
             LET es == Slots(it) IN
             \E b \in Chosen(es) :
                Do(<<"newg", h, it, V0>>, DoNewGpu(s, h, FALSE, es, <<Word(es, 0)>>, b, Len(s.objs)))
ArrG == /\ On("arrg") /\ Alive /\ Len(s.objs) < MaxObj
        /\ \E h \in Fresh(s.hs, MaxH), it \in Items, n \in Lens :
             LET es == Slots(it) IN
             \E b \in Chosen(es * n) :
                Do(<<"arrg", h, it, [i \in 1 .. n |-> V0 + i - 1]>>,
                   DoNewGpu(s, h, TRUE, es, [i \in 1 .. n |-> Word(es, i - 1)], b, Len(s.objs)))

Kind(h) == s.hs[h].kind
Ob(h) == s.objs[s.hs[h].o]
Arrs(h) == Ob(h).arr

CloneH == On("clone") /\ \E h \in DOMAIN s.hs, g \in Fresh(s.hs, MaxH) : Do(<<"clone", h, g>>, DoClone(s, h, g))
DropH == On("drop") /\ \E h \in DOMAIN s.hs : Do(<<"drop", h>>, DoDrop(s, h))
Weak == On("weak") /\ \E h \in DOMAIN s.hs, g \in Fresh(s.hs, MaxH) :
          ~Arrs(h) /\ Kind(h) \in {"cpu", "gpu"} /\ Do(<<"weak", h, g>>, DoDowngrade(s, h, g))
WeakGpu == On("weakgpu") /\ \E h \in DOMAIN s.hs, g \in Fresh(s.hs, MaxH) :
             Kind(h) = "wcpu" /\ Do(<<"weakgpu", h, g>>, DoWeakGpu(s, h, g))
Up == On("up") /\ \E h \in DOMAIN s.hs, g \in Fresh(s.hs, MaxH) :
        Kind(h) \in {"wcpu", "wgpu"} /\ Do(<<"up", h, g>>, IF CanUpgrade(s, h) THEN DoUpgrade(s, h, g) ELSE s)
GpuOnly == On("gpuonly") /\ \E h \in DOMAIN s.hs : Kind(h) = "cpu" /\ Do(<<"gpuonly", h>>, DoGpuOnly(s, h))
Set == On("set") /\ \E h \in DOMAIN s.hs :
         ~Arrs(h) /\ Kind(h) \in {"cpu", "gpu"}
         /\ Do(<<"set", h, V0>>, DoAssign(s, s.hs[h].o, 1, Word(Ob(h).es, 0), Kind(h) = "cpu"))
Modify == On("mod") /\ \E h \in DOMAIN s.hs :
            ~Arrs(h) /\ Kind(h) = "cpu"
            /\ Do(<<"mod", h, V0>>, DoAssign(s, s.hs[h].o, 1, Word(Ob(h).es, 0), TRUE))
Guard == On("guard") /\ \E h \in DOMAIN s.hs, m \in {0, 1} :
           ~Arrs(h) /\ Kind(h) = "cpu"
           /\ Do(<<"guard", h, m, V0>>,
                 IF m = 1 THEN DoAssign(s, s.hs[h].o, 1, Word(Ob(h).es, 0), TRUE) ELSE s)
\* item i, also past the end
ASet == On("aset") /\ \E h \in DOMAIN s.hs : Arrs(h) /\ \E i \in 0 .. Ob(h).n :
          Do(<<"aset", h, i, V0>>,
             IF i < Ob(h).n THEN DoAssign(s, s.hs[h].o, i + 1, Word(Ob(h).es, 0), Kind(h) = "cpu") ELSE s)
AMod == On("amod") /\ \E h \in DOMAIN s.hs : Arrs(h) /\ Kind(h) = "cpu" /\ \E i \in 0 .. Ob(h).n :
          Do(<<"amod", h, i, V0>>,
             IF i < Ob(h).n THEN DoAssign(s, s.hs[h].o, i + 1, Word(Ob(h).es, 0), TRUE) ELSE s)
Poke == On("poke") /\ s.cur # 0 /\ Alive /\ \E h \in DOMAIN s.hs : Kind(h) \in {"cpu", "gpu"} /\
          \E d \in 0 .. (Size(Ob(h)) - 1) :
             /\ Ob(h).base + d < Len(s.bufs[s.cur])
             /\ Do(<<"poke", h, d, V0>>, DoPoke(s, s.cur, Ob(h).base + d, V0))

BFresh == Fresh(s.bh, MaxB)
\* when no name for the result is left the returned handle is dropped at once
CommitOp ==
  LET grow == MustGrow(s)
      bid == IF grow THEN s.cur + 1 ELSE s.cur
      len == IF grow THEN CapFor(s.hi) ELSE Len(s.bufs[s.cur])
  IN /\ On("commit") /\ Alive
     /\ \/ \E b \in BFresh : Do(<<"commit", b>>, DoCommit(s, b, bid, CommitWords(s, len)))
        \/ /\ BFresh = {}
           /\ s' = DoBufDrop(DoCommit(s, MaxB + 1, bid, CommitWords(s, len)), MaxB + 1)
           /\ hist' = hist \o << <<"commit", MaxB + 1>>, <<"bdrop", MaxB + 1>> >>
GetBuf == On("getbuf") /\ Alive /\ \E b \in BFresh :
            Do(<<"getbuf", b>>, IF s.cur = 0 THEN s ELSE DoGetBuf(s, b))
BClone == On("bclone") /\ \E b \in DOMAIN s.bh, c \in BFresh : Do(<<"bclone", b, c>>, DoBufClone(s, b, c))
BDrop == On("bdrop") /\ \E b \in DOMAIN s.bh : Do(<<"bdrop", b>>, DoBufDrop(s, b))
BSync == On("bsync") /\ \E b \in DOMAIN s.bh : Do(<<"bsync", b>>, DoSync(s, b))
AClone == On("aclone") /\ Alive /\ s.al < 2 /\ Do(<<"aclone">>, [s EXCEPT !.al = @ + 1])
ADrop == On("adrop") /\ Alive /\ Do(<<"adrop">>, [s EXCEPT !.al = @ - 1])
Ids == On("ids") /\ Alive /\ Do(<<"ids">>, s)
Defrag == On("defrag") /\ Alive /\ Do(<<"defrag">>, s)

Init == s = InitState /\ hist = << >>
Next == /\ Len(hist) < MaxOps
        /\ \/ New \/ Arr \/ NewG \/ ArrG \/ CloneH \/ DropH \/ Weak \/ WeakGpu \/ Up \/ GpuOnly \/ Set \/ Modify \/ Guard \/ ASet \/ AMod
           \/ Poke \/ CommitOp \/ GetBuf \/ BClone \/ BDrop \/ BSync \/ AClone \/ ADrop \/ Ids \/ Defrag
Spec == Init /\ [][Next]_vars

Emit == EMIT => PrintT("PROG " \o ToJson(hist'))

\* what distinguishes states: everything but the words
Keep == {o \in Objs(s) : s.objs[o].st # "gone" \/ \E h \in DOMAIN s.hs : s.hs[h].o = o}
Shape == << [o \in Keep |-> LET b == s.objs[o]
                            IN <<b.arr, b.base, b.es, b.n, b.pend, b.poked, b.st, o \in s.must, o \in s.may>>],
            Len(s.objs), s.hs, s.free, s.hi, s.cur, s.bh, s.al,
            [b \in DOMAIN s.bufs |-> Len(s.bufs[b])], s.cur # 0 /\ s.born[s.cur] = s.k >>
\* additionally the last call, so that every call is tried from every shape
ShapeLast == <<Shape, IF hist = << >> THEN << >> ELSE <<hist[Len(hist)][1]>>>>

----------------------------------------------------------------------------
(* What users rely on *)

\* C02, C04: the storage of two values never overlaps, and is never free
Exclusive == \A o, p \in Held(s) : o # p => Extent(s.objs[o]) \cap Extent(s.objs[p]) = {}
NotFree == s.free \cap Taken(s) = {}
\* C05: nothing leaks
NoLeak == s.free \cup Taken(s) = 0 .. (s.hi - 1)
\* C04: storage is held as long as any strong handle exists
HandleHolds == \A h \in DOMAIN s.hs : Kind(h) \in {"cpu", "gpu"} => s.objs[s.hs[h].o].st = "live"
LiveHasHandle == \A o \in Live(s) : Strong(s, o) > 0
\* C01: whatever has been assigned is in the buffer or will be written by the next commit
InBuffer == \A o \in Live(s) : LET b == s.objs[o] IN
              \A i \in 1 .. b.n : i \in b.pend \/ b.es = 0
                 \/ /\ s.cur # 0 /\ b.base + Size(b) <= Len(s.bufs[s.cur])
                    /\ ItemWords(b, i, s.bufs[s.cur]) = b.tgt[i]
\* C07: work waiting is reported
Reported == \A o \in Live(s) : s.objs[o].pend # {} => o \in s.must
DeadReported == \A o \in Dead(s) : o \in s.must
MustMay == s.must \subseteq s.may
\* C08: an upgradable handle leads to a live value
UpgradeAlive == \A h \in DOMAIN s.hs : Kind(h) \in {"wcpu", "wgpu"} /\ CanUpgrade(s, h) => s.objs[s.hs[h].o].st = "live"
\* C06
CurExists == s.cur # 0 => s.cur \in DOMAIN s.bufs
HandlesKnown == \A b \in DOMAIN s.bh : s.bh[b] \in DOMAIN s.bufs /\ s.bh[b] <= s.cur

\* C03: only commits (and the GPU) change a buffer, and only where something was assigned
QuietBetween ==
  [][LET op == hist'[Len(hist) + 1][1] IN
     /\ op \notin {"commit", "poke"} => \A x \in DOMAIN s.bufs \cap DOMAIN s'.bufs : s'.bufs[x] = s.bufs[x]
     /\ op = "commit" => \A x \in DOMAIN s.bufs \cap DOMAIN s'.bufs : x # s.cur => s'.bufs[x] = s.bufs[x]
     /\ op = "commit" => \A x \in 0 .. (Len(s'.bufs[s'.cur]) - 1) :
                            x \in LivePend(s) \/ s'.bufs[s'.cur][x + 1] = OldWord(s, x)]_vars
\* C06: a superseded buffer never becomes current again, buffers only grow
Growing == [][s'.cur >= s.cur /\ (s.cur # 0 => Len(s'.bufs[s'.cur]) >= Len(s.bufs[s.cur]))]_vars
\* C02: the place of a value does not change as long as it exists
Fixed == [][\A o \in Objs(s) : s'.objs[o].base = s.objs[o].base /\ s'.objs[o].n = s.objs[o].n]_vars
=============================================================================
