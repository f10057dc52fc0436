----------------------------- MODULE FreeRanges -----------------------------
(***************************************************************************)
(* What a manager of free ranges is: a set of numbers (C14).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fits(held, n) == \E b \in held : (b .. (b + n - 1)) \subseteq held

\* results of taking n numbers: <<block, held'>>, <<>> stands for "nothing"
Nothing == << >>
Blocks(held, n) == {b \in held : (b .. (b + n - 1)) \subseteq held}

CONSTANT N            \* numbers 0 .. N-1
VARIABLES held, out   \* what is held, result of the last request

Init == held = {} /\ out = Nothing

Add(a, b) == /\ (a .. b) \cap held = {}
             /\ held' = held \cup (a .. b)
             /\ out' = Nothing
Take(n) == IF n > 0 /\ Fits(held, n)
           THEN \E b \in Blocks(held, n) : /\ out' = <<b, b + n - 1>>
                                           /\ held' = held \ (b .. (b + n - 1))
           ELSE out' = Nothing /\ held' = held

Next == \/ \E a \in 0 .. (N - 1) : \E b \in a .. (N - 1) : Add(a, b)
        \/ \E n \in 0 .. N : Take(n)
Spec == Init /\ [][Next]_<<held, out>>
=============================================================================
