----------------------------- MODULE TraceConc -----------------------------
(***************************************************************************)
(* Histories of the real allocator, recorded under controlled schedules,   *)
(* validated against ConcAlloc.  A history is a totally ordered sequence   *)
(* of calls, returns and buffer operations; TLC searches for points        *)
(* between them at which the calls may have taken effect.  A history that  *)
(* has no such explanation violates the property.  A call that panicked or *)
(* never returned has none.                                                *)
(***************************************************************************)
EXTENDS ConcAlloc, Json, IOUtils

Prop == IOEnv.PROP
MCValues == Prop \in {"C10", "ALL"}
MCAlloc == Prop \in {"C11", "ALL"}
MCReclaim == Prop \in {"C12", "ALL"}
MCHandles == Prop \in {"C13", "ALL"}
MCRelease == Prop \in {"C22", "ALL"}

H == ndJsonDeserialize(IOEnv.TRACE)
N == Len(H)

NewCalls(h) == {i \in DOMAIN H[h].ev : H[h].ev[i].k = "call" /\ H[h].ev[i].op = "new"}
Elements(h) ==
  LET q == NewCalls(h)
      at(o) == CHOOSE i \in q : H[h].ev[i].o = o
  IN [o \in {H[h].ev[i].o : i \in q} |-> H[h].ev[at(o)].n]
MaxBuf(h) == Cardinality({i \in DOMAIN H[h].ev : H[h].ev[i].k = "bc"})
Broken(h) == \E i \in DOMAIN H[h].ev : H[h].ev[i].k \in {"panic", "dead"}

VARIABLES h, i, s
vars == <<h, i, s>>

Init == /\ h \in {x \in 1 .. N : TLCSet(x, 0) /\ ~Broken(x)}
        /\ i = 1
        /\ s = State0(Elements(h), MaxBuf(h))

Ev == H[h].ev[i]

Event(e) ==
  CASE e.k = "call" -> s' = Call(s, e.t, e)
    [] e.k = "ret" ->
         IF s.pend[e.t].st # "idle" /\ s.pend[e.t].c.op = "commit"
         THEN LET P == Positions(s, e.m) IN RetOk(s, e.t, P, Len(e.m)) /\ s' = Ret(s, e.t, P)
         ELSE RetOk(s, e.t, <<>>, 0) /\ s' = Ret(s, e.t, <<>>)
    [] e.k = "bc" -> s' = Create(s, e.t, e.b)
    [] e.k = "cs" -> s' = CopyStart(s, e.t, e.b)
    [] e.k = "cp" -> LET P == Positions(s, e.m) IN CopyOk(s, e.t, P) /\ s' = Snap(s, e.b, P)
    [] e.k = "bw" -> (Alloc => e.end <= e.n) /\ s' = s
    [] e.k = "peek" -> LET P == Positions(s, e.m) IN SnapOk(s, e.b, P) /\ s' = Snap(s, e.b, P)
    [] e.k = "bd" -> (Release => e.b # s.cur \/ \A j \in i .. Len(H[h].ev) : H[h].ev[j].k \in {"bd", "end"})
                     /\ s' = [s EXCEPT !.gone = @ \cup {e.b}]
    [] e.k = "end" -> (Release => s.gone = 1 .. s.nb) /\ s' = s

Reach(n) == TLCGet(h) >= n \/ TLCSet(h, n)

\* Taking effect can always be put off until something other than a call happens.
Next ==
  /\ i <= Len(H[h].ev)
  /\ h' = h
  /\ \/ /\ Event(Ev)
        /\ i' = i + 1
        /\ Reach(i)
     \/ /\ Ev.k # "call"
        /\ i' = i
        /\ \E t \in Threads :
             \/ LinEnabled(s, t) /\ s' = Lin(s, t)
             \/ SwapEnabled(s, t) /\ s' = Swap(s, t)

Spec == Init /\ [][Next]_vars

\* how far each history could be explained
Done == \A x \in 1 .. N :
          TLCGet(x) = Len(H[x].ev) \/ PrintT("STUCK " \o ToString(x) \o " " \o ToString(TLCGet(x) + 1))
Report == Done /\ PrintT("DONE " \o ToString(N))
=============================================================================
