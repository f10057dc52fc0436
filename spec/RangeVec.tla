------------------------------ MODULE RangeVec ------------------------------
(***************************************************************************)
(* RangeManager<Range> as it is written: an unsorted vector of ranges,     *)
(* add_range merging with swap_remove until nothing is left to merge with, *)
(* remove taking the first range that is large enough.  Checked to refine  *)
(* FreeRanges; every transition is emitted as a program for the real code. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT N, EMIT
VARIABLES vec, res, hist

SwapRemove(v, i) == IF i = Len(v) THEN SubSeq(v, 1, Len(v) - 1)
                    ELSE [SubSeq(v, 1, Len(v) - 1) EXCEPT ![i] = v[Len(v)]]
Touch(r, q) == r[2] + 1 = q[1] \/ r[1] = q[2] + 1
RMin(a, b) == IF a <= b THEN a ELSE b
RMax(a, b) == IF a >= b THEN a ELSE b
Union(r, q) == <<RMin(r[1], q[1]), RMax(r[2], q[2])>>

RECURSIVE AddTo(_, _)
AddTo(v, r) ==
  LET c == {i \in DOMAIN v : Touch(v[i], r)}
  IN IF c = {} THEN Append(v, r)
     ELSE LET i == CHOOSE x \in c : \A y \in c : x <= y
          IN AddTo(SwapRemove(v, i), Union(v[i], r))

RLen(r) == 1 + r[2] - r[1]
Denote(v) == UNION {v[i][1] .. v[i][2] : i \in DOMAIN v}

Init == vec = << >> /\ res = << >> /\ hist = << >>
Add(a, b) == /\ (a .. b) \cap Denote(vec) = {}
             /\ vec' = AddTo(vec, <<a, b>>) /\ res' = << >>
             /\ hist' = Append(hist, <<a, b>>)
Remove(n) == /\ hist' = Append(hist, <<n>>)
             /\ LET c == {i \in DOMAIN vec : RLen(vec[i]) >= n}
                IN IF n = 0 \/ c = {} THEN vec' = vec /\ res' = << >>
                   ELSE LET i == CHOOSE x \in c : \A y \in c : x <= y
                        IN /\ res' = <<vec[i][1], vec[i][1] + n - 1>>
                           /\ vec' = IF RLen(vec[i]) = n THEN SwapRemove(vec, i)
                                     ELSE [vec EXCEPT ![i] = <<@[1] + n, @[2]>>]
Next == \/ \E a \in 0 .. (N - 1) : \E b \in a .. (N - 1) : Add(a, b)
        \/ \E n \in 0 .. N : Remove(n)
Spec == Init /\ [][Next]_<<vec, res, hist>>

View == vec
View2 == <<vec, IF hist = << >> THEN << >> ELSE hist[Len(hist)]>>
Emit == EMIT => PrintT("PROG " \o ToJson(hist'))

\* no number twice, ranges neither overlap nor touch
Separate == \A i, j \in DOMAIN vec : i # j => vec[i][2] + 1 < vec[j][1] \/ vec[j][2] + 1 < vec[i][1]
Proper == \A i \in DOMAIN vec : vec[i][1] <= vec[i][2]

A == INSTANCE FreeRanges WITH held <- Denote(vec), out <- res
Refines == A!Spec
=============================================================================
