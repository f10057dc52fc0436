----------------------------- MODULE TraceSlab ------------------------------
(***************************************************************************)
(* Trace validation of crabslab: codecs (C18, C19), reads and writes (C17),*)
(* growable slabs (C16), ids and arrays (C20).                             *)
(*   mem   the words the slab must hold                                    *)
(***************************************************************************)
EXTENDS Layout, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mem

V(cond, ids) == IF cond THEN {} ELSE ids
HasKey(r, k) == k \in DOMAIN r
All(q, x) == \A i \in DOMAIN q : q[i] = x

----------------------------------------------------------------------------
(* unsigned 32 bit numbers, logged as signed ones *)
NULL == -1
ULt(a, b) == IF (a >= 0) = (b >= 0) THEN a < b ELSE a >= 0
UCmp(a, b) == IF a = b THEN 0 ELSE IF ULt(a, b) THEN -1 ELSE 1

----------------------------------------------------------------------------
(* Codecs.  Derived items are C19's, built-in ones C18's. *)
CodecViol(e, c) ==
  LET size == Size(e.t)
      p == e.at + 1
  IN V(e.size = size, c)
     \cup V(e.next = e.at + size, c)
     \cup V(Len(e.new) = Len(e.old), c)
     \cup (IF Len(e.new) # Len(e.old) \/ e.at + size > Len(e.new) THEN c
           ELSE V(\A i \in DOMAIN e.old : (i < p \/ i >= p + size) => e.new[i] = e.old[i], c)
                \cup V(Match(e.t, e.v, e.new, p, TRUE), c))
     \cup V(e.back = e.v, c) \cup V(e.back2 = e.v, c)

\* what an enum reads as when its tag is no variant's
TagViol(e) ==
  V(IF e.tag >= 0 /\ e.tag < Len(e.t.vs) THEN e.back.g = e.tag ELSE e.back = e.def, {"C19"})

\* offsets of fields: e.path is the chain of (struct type, field number) down to the field
RECURSIVE OffsetOf(_, _)
OffsetOf(t, path) ==
  IF path = << >> THEN 0
  ELSE SumSizes(SubSeq(t.ts, 1, Head(path))) + OffsetOf(t.ts[Head(path) + 1], Tail(path))
OffViol(e) ==
  V(e.off = OffsetOf(e.t, e.path), {"C19"})
  \cup V(\A i \in DOMAIN e.ids : e.ids[i] = e.base + OffsetOf(e.t, e.path), {"C19"})
  \cup V(e.size = -1 \/ e.size = Size(e.ft), {"C19"})
  \cup V(e.v = e.field, {"C19"})

----------------------------------------------------------------------------
(* Writes: the items vs of type t at slot `at`. *)
ItemsMatch(t, vs, ws, at) ==
  \A i \in DOMAIN vs : Match(t, vs[i], ws, at + 1 + (i - 1) * Size(t), TRUE)
OnlyThere(old, new, at, k) ==
  /\ Len(new) = Len(old)
  /\ \A i \in DOMAIN old : (i <= at \/ i > at + k) => new[i] = old[i]

WriteViol(e, vs, at, c) ==
  LET k == Size(e.t) * Len(vs)
  IN IF k > 0 /\ at + k > Len(mem) THEN {"ERR"}    \* the harness must not ask for this
     ELSE V(\A j \in DOMAIN e.o : OnlyThere(mem, e.o[j], IF k = 0 THEN 0 ELSE at, k), c)
          \cup V(\A j \in DOMAIN e.o : (k = 0 \/ Len(e.o[j]) # Len(mem)) \/ ItemsMatch(e.t, vs, e.o[j], at), c)
          \cup V(\A j \in DOMAIN e.next : e.next[j] = at + k, c)
          \cup V(e.size = Size(e.t), c)

\* the first e.n items, or none if there is too little data
WaItems(e) == IF e.n > Len(e.vs) THEN << >> ELSE SubSeq(e.vs, 1, e.n)

Fits(t, id) == id >= 0 /\ Size(t) <= Len(mem) - id
\* reading t at id gives v, or def if it does not fit
ReadsAs(t, id, v, def) ==
  IF Fits(t, id) THEN Match(t, v, mem, id + 1, FALSE) ELSE v = def

ReadViol(e) ==
  V(All(e.c, Fits(e.t, e.id)), {"C17"})
  \cup V(\A j \in DOMAIN e.v : ReadsAs(e.t, e.id, e.v[j], e.def), {"C17"})
  \cup V(\A i, j \in DOMAIN e.v : e.v[i] = e.v[j], {"C17"})
  \cup V(\A j \in DOMAIN e.u : ReadsAs(e.t, e.id, e.u[j], e.def), {"C17"})

ReadVecViol(e) ==
  V(\A j \in DOMAIN e.v :
      /\ Len(e.v[j]) = e.n
      /\ \A i \in DOMAIN e.v[j] : ReadsAs(e.t, e.id + (i - 1) * Size(e.t), e.v[j][i], e.def), {"C17"})

ReadIfViol(e) ==
  V(\A j \in DOMAIN e.v : IF e.id = NULL THEN e.v[j] = e.x ELSE Match(e.t, e.v[j], mem, e.id + 1, FALSE), {"C17"})

LenViol(e, c) ==
  IF ~HasKey(e, "len") THEN {}
  ELSE V(\A j \in DOMAIN e.len : e.len[j] = Len(e.o[j]), c)
       \cup V(\A j \in DOMAIN e.empty : e.empty[j] = (Len(e.o[j]) = 0), c)
SameMem(e, c) == V(All(e.o, mem), c)

----------------------------------------------------------------------------
(* Growable slabs *)
Zeros(k) == [i \in 1 .. k |-> 0]
\* where k items of a type start: the old end; an empty array may be the null array
StartViol(e, k) ==
  IF e.n >= 0 /\ k = 0
  THEN V(e.n = 0 /\ e.id \in {NULL, Len(mem)}, {"C16"})
  ELSE V(e.id = Len(mem) /\ e.n \in {-1, k}, {"C16"})
AppViol(e) ==
  LET k == Size(e.t) * Len(e.vs)
      o == e.o[1]
  IN StartViol(e, Len(e.vs))
     \cup V(Len(o) = Len(mem) + k /\ SubSeq(o, 1, Len(mem)) = mem, {"C16"})
     \cup V(Len(o) # Len(mem) + k \/ ItemsMatch(e.t, e.vs, o, Len(mem)), {"C16"})
     \cup V(e.back = e.vs, {"C16"})
AlViol(e) ==
  StartViol(e, e.k) \cup V(e.o[1] = mem \o Zeros(Size(e.t) * e.k), {"C16"})
CapViol(e) ==
  IF ~HasKey(e, "cap") THEN {}
  ELSE V(e.cap >= e.cap0 /\ e.cap >= Len(e.o[1]), {"C16"})
       \cup (CASE e.e = "res" -> V(e.cap >= e.k, {"C16"})
               [] e.e = "exp" -> V(e.cap >= Len(mem) + Size(e.t) * e.k, {"C16"})
               [] OTHER -> {})

----------------------------------------------------------------------------
(* Ids and arrays *)
IdsViol(e) ==
  V(e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b), {"C20"})
  \cup V(e.lt = ULt(e.a, e.b) /\ e.le = ~ULt(e.b, e.a) /\ e.cmp = UCmp(e.a, e.b) /\ e.pc = UCmp(e.a, e.b), {"C20"})
  \cup V(e.hash /\ (e.a = e.b => e.h2), {"C20"})
  \cup V(e.none = (e.a = NULL) /\ e.some = (e.a # NULL), {"C20"})
  \cup V(All(e.conv, e.a), {"C20"})
  \cup V(All(e.add, e.a + e.k), {"C20", "C19"})
  \cup V(All(e.off, e.k), {"C20", "C19"})
  \cup V(e.arr = <<e.a, 1>>, {"C20"})
  \cup V(All(e.nul, NULL), {"C20"})
  \cup V(e.max = (IF ULt(e.a, e.b) THEN <<e.b, e.a>> ELSE <<e.a, e.b>>), {"C20"})

Sub(a, b) == IF a >= b THEN a - b ELSE 0
\* every d-th element of q, beginning with the first
Every(q, d) == [i \in 1 .. (Len(q) + d - 1) \div d |-> q[(i - 1) * d + 1]]
Nth(q, i) == IF i \in DOMAIN q THEN <<q[i]>> ELSE << >>
ArrViol(e) ==
  LET at == [i \in 1 .. e.l |-> e.a + (i - 1) * Size(e.t)]
      k == e.l * Size(e.t)
  IN V(e.size = Size(e.t), {"C20", "C18"})
     \cup V(e.at = at, {"C20"})
     \cup V(All(e.beyond, NULL), {"C20"})
     \cup V(e.iter = at, {"C20"})
     \cup V(e.rest = SubSeq(at, e.skip + 1, Len(at)), {"C20"})
     \cup V(All(e.over, TRUE), {"C20"})
     \cup V(e.stepped = Every(SubSeq(at, e.step[1] + 1, Len(at)), e.step[2]), {"C20"})
     \cup V(e.first = (e.l > 0) /\ e.count = e.l /\ e.last = Nth(at, e.l), {"C20"})
     \cup V(e.hint[1] <= Sub(e.l, 1) /\ Sub(e.l, 1) <= e.hint[2], {"C20"})
     \cup V(e.nth = Nth(at, e.k + 2) /\ e.after = Nth(at, e.k + 3), {"C20"})
     \cup V(e.u[2] = k /\ (e.u[1] = e.a \/ k = 0), {"C20"})
     \cup V(e.ulist = [i \in 1 .. k |-> e.a + i - 1], {"C20"})
     \cup V(\A i \in DOMAIN e.cont : e.cont[i][2] = (e.cont[i][1] >= 0 /\ e.cont[i][1] < k), {"C20"})
     \cup V(e.len = e.l /\ e.empty = (e.l = 0) /\ e.start = e.a, {"C20"})
     \cup V(e.null = (e.a = NULL), {"C20"})
     \cup V(e.eq = <<TRUE, FALSE, FALSE>>, {"C20"})
     \cup V(e.nul = <<NULL, 0, NULL, 0>> /\ All(e.nulls, TRUE), {"C20"})
     \cup V(e.has => e.sub = (IF k = 0 THEN << >> ELSE SubSeq(e.slab, e.a + 1, e.a + k)), {"C20"})

UnionViol(e) ==
  LET a == e.q[1] b == e.q[1] + e.q[2] c == e.q[3] d == e.q[3] + e.q[4]
      lo == IF a <= c THEN a ELSE c
      hi == IF b >= d THEN b ELSE d
  IN V(e.r = <<lo, hi - lo>>, {"C20", "C15"})

----------------------------------------------------------------------------
Derived(e) == HasKey(e, "derived")
EventViol(e) ==
  CASE e.e = "panic" -> {"C16", "C17", "C18", "C19", "C20"}
    [] e.e = "codec" -> CodecViol(e, IF Derived(e) THEN {"C19"} ELSE {"C18"})
    [] e.e = "tag" -> TagViol(e)
    [] e.e = "off" -> OffViol(e)
    [] e.e = "w" -> WriteViol(e, e.vs, e.at, {"C17", "C16"}) \cup LenViol(e, {"C17"}) \cup CapViol(e)
    [] e.e = "wa" -> WriteViol(e, WaItems(e), e.at, {"C17"}) \cup LenViol(e, {"C17"})
    [] e.e = "rd" -> ReadViol(e) \cup SameMem(e, {"C17"}) \cup LenViol(e, {"C17"})
    [] e.e = "ri" -> ReadIfViol(e) \cup SameMem(e, {"C17"})
    [] e.e = "rv" -> ReadVecViol(e) \cup SameMem(e, {"C17"})
    [] e.e = "app" -> AppViol(e) \cup LenViol(e, {"C16"}) \cup CapViol(e)
    [] e.e = "al" -> AlViol(e) \cup LenViol(e, {"C16"}) \cup CapViol(e)
    [] e.e \in {"res", "exp"} -> SameMem(e, {"C16"}) \cup LenViol(e, {"C16"}) \cup CapViol(e)
    [] e.e = "inc" -> V(e.r = Len(mem) /\ e.o[1] = mem \o Zeros(e.k), {"C16"}) \cup LenViol(e, {"C16"}) \cup CapViol(e)
    [] e.e = "inner" -> V(e.o[1] = Append(mem, 7), {"C16", "C17"})
    [] e.e = "ids" -> IdsViol(e)
    [] e.e = "arr" -> ArrViol(e)
    [] e.e = "union" -> UnionViol(e)
    [] OTHER -> {}

Init == l = 1 /\ mem = << >>
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         v == EventViol(e)
     IN /\ l' = l + 1
        /\ IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(l) \o " " \o ToString(v))
        /\ mem' = IF e.e = "reset" THEN e.m
                  ELSE IF HasKey(e, "o") THEN e.o[1] ELSE mem
Spec == Init /\ [][Next]_<<l, mem>>
Done == PrintT("DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
