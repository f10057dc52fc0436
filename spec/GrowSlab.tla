------------------------------ MODULE GrowSlab ------------------------------
(***************************************************************************)
(* A growable slab: length, capacity and who owns each slot.               *)
(* `Strict` is the contract between the provided methods of GrowableSlab   *)
(* and its required ones: the length never passes what was reserved.       *)
(* Every transition is emitted as a program for the real slabs.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS L, EMIT      \* bound on the length
Types == {<<0, 1>>, <<3, 0>>, <<1, 2>>, <<9, 3>>}
VARIABLES init, len, cap, items, hist

Max(a, b) == IF a >= b THEN a ELSE b
Init == \E i \in 0 .. 2, x \in 0 .. 3 :
          init = <<i, x>> /\ len = i /\ cap = i + x /\ items = << >> /\ hist = << >>
Fit(k) == Max(cap, len + k)
Grow(op, k) == /\ len + k <= L
               /\ len' = len + k /\ cap' = Fit(k)
               /\ items' = Append(items, <<len, k>>)
               /\ hist' = Append(hist, op) /\ UNCHANGED init
Reserve(op, c) == cap' = Max(cap, c) /\ hist' = Append(hist, op) /\ UNCHANGED <<init, len, items>>
Next ==
  \/ \E t \in Types : Grow(<<"app", t[1]>>, t[2]) \/ Grow(<<"al", t[1]>>, t[2])
  \/ \E t \in Types, c \in 0 .. 3 : \/ Grow(<<"apa", t[1], c>>, c * t[2])
                                    \/ Grow(<<"ala", t[1], c>>, c * t[2])
                                    \/ Len(hist) < 4 /\ Reserve(<<"exp", t[1], c>>, len + c * t[2])
  \/ \E c \in 0 .. 3 : Grow(<<"inc", 0, c>>, c)
  \/ \E c \in 0 .. L : Reserve(<<"res", 0, c>>, c)
  \/ \E t \in Types : /\ len >= t[2] /\ Len(hist) < 3
                      /\ hist' = Append(hist, <<"w", t[1], 1>>) /\ UNCHANGED <<init, len, cap, items>>
Spec == Init /\ [][Next]_<<init, len, cap, items, hist>>
View == <<len, cap>>
View2 == <<len, cap, IF hist = << >> THEN << >> ELSE hist[Len(hist)]>>
Emit == EMIT => PrintT("PROG " \o ToJson(<<init, hist'>>))

Strict == len <= cap
Disjoint == \A i, j \in DOMAIN items : i < j => items[i][1] + items[i][2] <= items[j][1]
Exact == items # << >> => items[Len(items)][1] + items[Len(items)][2] = len
=============================================================================
