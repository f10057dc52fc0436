------------------------------ MODULE WriteVec ------------------------------
(***************************************************************************)
(* RangeManager<SlabUpdate> as it is written: queued writes, merged when   *)
(* they share a slot.  Checked against the meaning of a sequence of writes *)
(* (last writer wins) and used to enumerate programs for the real code.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, D, EMIT    \* slots 0..N-1, at most D writes
VARIABLES vec, hist

SwapRemove(v, i) == IF i = Len(v) THEN SubSeq(v, 1, Len(v) - 1)
                    ELSE [SubSeq(v, 1, Len(v) - 1) EXCEPT ![i] = v[Len(v)]]
End(w) == w.a + Len(w.w)
Slots(w) == w.a .. (End(w) - 1)
Intersects(w, x) == ~(w.a >= End(x) \/ x.a >= End(w))
WMin(a, b) == IF a <= b THEN a ELSE b
WMax(a, b) == IF a >= b THEN a ELSE b
\* x overwrites w
Union(w, x) ==
  LET a == WMin(w.a, x.a)
      b == WMax(End(w), End(x))
  IN [a |-> a, w |-> [j \in 1 .. (b - a) |->
        LET s == a + j - 1
        IN IF s \in Slots(x) THEN x.w[s - x.a + 1] ELSE IF s \in Slots(w) THEN w.w[s - w.a + 1] ELSE 0]]

RECURSIVE AddTo(_, _)
AddTo(v, w) ==
  LET c == {i \in DOMAIN v : Intersects(v[i], w)}
  IN IF c = {} THEN Append(v, w)
     ELSE LET i == CHOOSE x \in c : \A y \in c : x <= y
          IN AddTo(SwapRemove(v, i), Union(v[i], w))

Init == vec = << >> /\ hist = << >>
Write(a, n) == LET k == Len(hist) + 1
               IN /\ vec' = AddTo(vec, [a |-> a, w |-> [j \in 1 .. n |-> k * 1000 + j - 1]])
                  /\ hist' = Append(hist, <<a, n>>)
Next == Len(hist) < D /\ \E a \in 0 .. (N - 1) : \E n \in 1 .. (N - a) : Write(a, n)
Spec == Init /\ [][Next]_<<vec, hist>>
Emit == (EMIT /\ Len(hist') = D) => PrintT("PROG " \o ToJson(hist'))

\* what the sequence of writes means
Covered == UNION {hist[k][1] .. (hist[k][1] + hist[k][2] - 1) : k \in DOMAIN hist}
Last(s) == LET K == {k \in DOMAIN hist : s \in hist[k][1] .. (hist[k][1] + hist[k][2] - 1)}
               k == CHOOSE x \in K : \A y \in K : y <= x
           IN k * 1000 + s - hist[k][1]

Disjoint == \A i, j \in DOMAIN vec : i # j => Slots(vec[i]) \cap Slots(vec[j]) = {}
SameSlots == UNION {Slots(vec[i]) : i \in DOMAIN vec} = Covered
LastWriterWins == \A i \in DOMAIN vec : \A s \in Slots(vec[i]) : vec[i].w[s - vec[i].a + 1] = Last(s)
=============================================================================
