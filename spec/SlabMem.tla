------------------------------ MODULE SlabMem -------------------------------
(***************************************************************************)
(* A slab as an array of slots, written by items of different sizes.       *)
(* Abstract contents: which part of which write a slot shows.  Checked:    *)
(* nothing but the addressed slots changes, the last write over a slot     *)
(* wins, arrays are never overrun.  Every sequence of D operations is      *)
(* emitted as a program for the real slabs.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, D, EMIT     \* slots, operations
\* types of the harness and their sizes
Types == {<<0, 1>>, <<3, 0>>, <<9, 3>>, <<1, 2>>, <<11, 2>>}
VARIABLES mem, hist, okay

Init == mem = [s \in 1 .. N |-> <<0, s>>] /\ hist = << >> /\ okay = TRUE
Step == Len(hist) + 1
Put(at, k) == [s \in 1 .. N |-> IF s > at /\ s <= at + k THEN <<Step, s - at>> ELSE mem[s]]
\* only the slots behind `at`, and all k of them, now show this write
Confined(at, k) == /\ \A s \in 1 .. N : (s > at /\ s <= at + k) <=> (mem'[s][1] = Step)
                   /\ \A s \in 1 .. N : mem'[s][1] # Step => mem'[s] = mem[s]
Do(op, at, k) == /\ mem' = Put(at, k) /\ hist' = Append(hist, op) /\ okay' = Confined(at, k)

WriteOne(t, at) == at + t[2] <= N /\ Do(<<"w", t[1], at>>, at, t[2])
WriteId(t, at) == at + t[2] <= N /\ Do(<<"wid", t[1], at>>, at, t[2])
WriteSlice(t, at, c) == at + c * t[2] <= N /\ Do(<<"ws", t[1], at, c>>, at, c * t[2])
\* an array of a items and d items of data: all of the array or nothing
WriteArray(t, at, a, d) == /\ at + a * t[2] <= N
                           /\ Do(<<"wa", t[1], at, a, d>>, at, IF d < a THEN 0 ELSE a * t[2])
Next == /\ Len(hist) < D
        /\ \E t \in Types, at \in 0 .. N :
             \/ WriteOne(t, at)
             \/ Len(hist) = D - 1 /\ WriteId(t, at)
             \/ \E c \in 0 .. 3 : WriteSlice(t, at, c)
             \/ \E a, d \in 0 .. 3 : WriteArray(t, at, a, d)
Spec == Init /\ [][Next]_<<mem, hist, okay>>
View == IF hist = << >> THEN <<mem, hist>> ELSE <<mem, <<hist[Len(hist)]>>>>
Emit == (EMIT /\ Len(hist') = D) => PrintT("PROG " \o ToJson(hist'))
OnlyAddressed == okay
=============================================================================
