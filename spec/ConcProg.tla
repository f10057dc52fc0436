------------------------------ MODULE ConcProg ------------------------------
(***************************************************************************)
(* Small multi-threaded usages of the allocator: what two threads may do   *)
(* with handles of one shared object, a buffer handle each and a weak      *)
(* handle each.  Every reachable state with both threads non-empty is a    *)
(* program; TLC prints them all, the harness runs each under every         *)
(* schedule with a bounded number of preemptions and TraceConc judges the  *)
(* recorded histories.                                                     *)
(***************************************************************************)
EXTENDS Sequences, Naturals, TLC, Json

CONSTANTS Alphabet, LenA, LenB

VARIABLES prog, has
vars == <<prog, has>>
T == {"a", "b"}

\* what a thread may still hold of the shared object
Init == prog = [t \in T |-> <<>>] /\ has = [t \in T |-> "cpu"]

Max(t) == IF t = "a" THEN LenA ELSE LenB

NeedsCpu == {"mod", "lock", "look", "get", "gpu", "rc"}
NeedsObj == {"set", "clone", "drop", "weak"}

\* thread b only starts once thread a is complete: the pair matters, not how it was built
Add(t, op) ==
  /\ op \in Alphabet
  /\ Len(prog[t]) < Max(t)
  /\ t = "a" => prog["b"] = <<>>
  /\ op \in NeedsCpu => has[t] = "cpu"
  /\ op \in NeedsObj => has[t] # "none"
  /\ prog' = [prog EXCEPT ![t] = Append(@, op)]
  /\ has' = [has EXCEPT ![t] = CASE op = "drop" -> "none" [] op = "gpu" -> "gpu" [] op = "up" -> "cpu" [] OTHER -> @]

Next == \E t \in T, op \in Alphabet : Add(t, op)
Spec == Init /\ [][Next]_vars

Emit == (prog["a"] # <<>> /\ prog["b"] # <<>>) => PrintT("PROG " \o ToJson(prog))
=============================================================================
