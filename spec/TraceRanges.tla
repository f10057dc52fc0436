----------------------------- MODULE TraceRanges -----------------------------
(***************************************************************************)
(* Trace validation of the real range managers.                            *)
(*   held   numbers a RangeManager<Range> must hold (FreeRanges)           *)
(*   cells  slot -> word that the queued writes must produce               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, held, cells

V(cond, ids) == IF cond THEN {} ELSE ids
Fits(h, n) == \E b \in h : (b .. (b + n - 1)) \subseteq h

RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))

\* pairs of numbers that denote a set of numbers: each once, no touching neighbours
HeldViol(h, o) ==
  LET num(i) == o[i][1] .. o[i][2]
  IN V(UNION {num(i) : i \in DOMAIN o} = h, {"C14"})
     \cup V(\A i \in DOMAIN o : o[i][1] <= o[i][2], {"C14"})
     \cup V(\A i, j \in DOMAIN o : i # j => o[i][2] + 1 < o[j][1] \/ o[j][2] + 1 < o[i][1], {"C14"})

WriteViol(c, o) ==
  LET sl(i) == o[i].a .. (o[i].a + o[i].l - 1)
  IN IF \E i \in DOMAIN o : Len(o[i].w) # o[i].l THEN {"C15"}
     ELSE V(\A i, j \in DOMAIN o : i < j => sl(i) \cap sl(j) = {}, {"C15"})
          \cup V(UNION {sl(i) : i \in DOMAIN o} = DOMAIN c, {"C15"})
          \cup V(\A i \in DOMAIN o : \A s \in sl(i) : s \in DOMAIN c => o[i].w[s - o[i].a + 1] = c[s], {"C15"})

Held2(e) ==
  CASE e.e = "add" -> held \cup (e.a .. e.b)
    [] e.e = "take" -> IF e.r = << >> THEN held ELSE held \ (e.r[1] .. e.r[2])
    [] e.e = "reset" -> {}
    [] OTHER -> held
Cells2(e) ==
  CASE e.e = "w" -> [s \in e.a .. (e.a + Len(e.w) - 1) |-> e.w[s - e.a + 1]] @@ cells
    [] e.e = "reset" -> << >>
    [] OTHER -> cells

RngViol(e) ==
  LET r == e.a .. e.b
      q == e.c .. e.d
      touch == e.b + 1 = e.c \/ e.d + 1 = e.a
  IN V(e.len = Cardinality(r), {"C14"})
     \cup V(e.empty = (r = {}), {"C14"})
     \cup V(r # {} /\ q # {} => e.inter = (r \cap q # {}), {"C14"})
     \cup V(e.eq = (e.a = e.c /\ e.b = e.d), {"C14"})
     \cup V(r # {} /\ q # {} /\ e.disj => e.merge = touch, {"C14"})
     \cup V(e.merge => e.un[1] .. e.un[2] = r \cup q, {"C14"})
     \cup V(r # {} => e.from = <<e.a, e.b>>, {"C14"})
     \cup V(r # {} => e.from2[1] = e.a /\ e.from2[2] - e.from2[1] + 1 = 2 * Cardinality(r), {"C14"})
     \cup V(r # {} /\ q # {} => e.uinter = (r \cap q # {}), {"C15"})

EventViol(e) ==
  CASE e.e = "panic" -> {"C14", "C15"}
    [] e.e = "add" -> HeldViol(Held2(e), e.o) \cup V(e.len = Len(e.o) /\ e.empty = (e.len = 0), {"C14"})
    [] e.e = "take" ->
         V(e.n > 0 => (e.r # << >>) = Fits(held, e.n), {"C14"})
         \cup V(e.r # << >> => /\ e.r[2] - e.r[1] + 1 = e.n
                               /\ (e.r[1] .. e.r[2]) \subseteq held, {"C14"})
         \cup HeldViol(Held2(e), e.o)
         \cup V(e.len = Len(e.o) /\ e.empty = (e.len = 0), {"C14"})
    [] e.e = "w" -> WriteViol(Cells2(e), e.o)
    [] e.e = "rng" -> RngViol(e)
    [] OTHER -> {}

Init == l = 1 /\ held = {} /\ cells = << >>
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         v == EventViol(e)
     IN /\ l' = l + 1
        /\ IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(l) \o " " \o ToString(v))
        /\ held' = Held2(e)
        /\ cells' = Cells2(e)
Spec == Init /\ [][Next]_<<l, held, cells>>
Done == PrintT("DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
