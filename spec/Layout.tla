------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The slot layout of crabslab's items, as documented: what a value of a   *)
(* type looks like as 32 bit words.                                        *)
(*                                                                         *)
(* Types (records, as logged by the harness):                              *)
(*   [k |-> "i", n, s]  number of n bytes, s: signed (floats and ids too)  *)
(*   [k |-> "b"]        bool                                               *)
(*   [k |-> "o", t]     Option<t>                                          *)
(*   [k |-> "a", n, t]  n consecutive t                                    *)
(*   [k |-> "t", ts]    fields in order (tuples, structs)                  *)
(*   [k |-> "p"]        nothing (PhantomData)                              *)
(*   [k |-> "e", vs]    enum; vs: field types of each variant              *)
(* Values: numbers are their little-endian bytes, options are sequences of *)
(* length 0 or 1, everything else a sequence of its parts; an enum value   *)
(* is [g |-> variant, f |-> fields].  Words are signed 32 bit numbers.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Size(_), SumSizes(_), MaxSizes(_)
SumSizes(ts) == IF ts = << >> THEN 0 ELSE Size(Head(ts)) + SumSizes(Tail(ts))
MaxSizes(vs) == IF vs = << >> THEN 0
                ELSE LET a == SumSizes(Head(vs)) b == MaxSizes(Tail(vs)) IN IF a >= b THEN a ELSE b
Size(t) ==
  CASE t.k = "i" -> (t.n + 3) \div 4
    [] t.k = "b" -> 1
    [] t.k = "o" -> 1 + Size(t.t)
    [] t.k = "a" -> t.n * Size(t.t)
    [] t.k = "t" -> SumSizes(t.ts)
    [] t.k = "p" -> 0
    [] t.k = "e" -> 1 + MaxSizes(t.vs)

Pow256 == <<1, 256, 65536, 16777216>>
\* byte k (0..3) of a word
Byte(w, k) == (w \div Pow256[k + 1]) % 256

Fill(t, v) == IF t.s /\ v[t.n] >= 128 THEN 255 ELSE 0
\* byte j (0-based) of the sign extension of v to whole words
Ext(t, v, j) == IF j < t.n THEN v[j + 1] ELSE Fill(t, v)

(* Does `v` of type `t` look like `ws` from word p (1-based) on?            *)
(* strict: exactly this encoding.  Otherwise: reading ws there must give v; *)
(* what a non-canonical encoding reads as is not specified.                 *)
RECURSIVE Match(_, _, _, _, _), MatchFields(_, _, _, _, _)
MatchFields(ts, vs, ws, p, strict) ==
  IF ts = << >> THEN vs = << >>
  ELSE /\ vs # << >>
       /\ Match(Head(ts), Head(vs), ws, p, strict)
       /\ MatchFields(Tail(ts), Tail(vs), ws, p + Size(Head(ts)), strict)
Match(t, v, ws, p, strict) ==
  CASE t.k = "i" ->
         /\ Len(v) = t.n
         /\ \/ \A j \in 0 .. (4 * Size(t) - 1) : Byte(ws[p + (j \div 4)], j % 4) = Ext(t, v, j)
            \/ /\ ~strict /\ t.n < 4
               \* not an encoding of any number of this type
               /\ LET lo == [j \in 1 .. t.n |-> Byte(ws[p], j - 1)]
                  IN \E j \in 0 .. 3 : Byte(ws[p], j) # Ext(t, lo, j)
    [] t.k = "b" -> \/ ws[p] = (IF v THEN 1 ELSE 0)
                    \/ ~strict /\ ws[p] \notin {0, 1}
    [] t.k = "o" -> \/ v = << >> /\ ws[p] = 0
                    \/ Len(v) = 1 /\ ws[p] = 1 /\ Match(t.t, v[1], ws, p + 1, strict)
                    \/ ~strict /\ ws[p] \notin {0, 1}
    [] t.k = "a" -> /\ Len(v) = t.n
                    /\ \A i \in 1 .. t.n : Match(t.t, v[i], ws, p + (i - 1) * Size(t.t), strict)
    [] t.k = "t" -> MatchFields(t.ts, v, ws, p, strict)
    [] t.k = "p" -> TRUE
    [] t.k = "e" -> /\ ws[p] = v.g
                    /\ MatchFields(t.vs[v.g + 1], v.f, ws, p + 1, strict)

(* Total types: every combination of words is the encoding of some value.   *)
RECURSIVE Total(_)
Total(t) ==
  CASE t.k = "i" -> t.n >= 4
    [] t.k = "a" -> Total(t.t)
    [] t.k = "t" -> \A i \in DOMAIN t.ts : Total(t.ts[i])
    [] t.k = "p" -> TRUE
    [] OTHER -> FALSE
=============================================================================
