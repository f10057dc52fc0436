----------------------------- MODULE ConcAlloc -----------------------------
(***************************************************************************)
(* The concurrent specification of the allocator.                          *)
(*                                                                         *)
(* Every public call is an interval; somewhere inside it takes effect in   *)
(* one step (a drop of a CPU handle in two: the CPU part, then the slots;  *)
(* a commit that replaces the buffer has a further step that makes the new *)
(* buffer current).  The operators below are those steps as                *)
(* guards and state transformers over one state record s:                  *)
(*   hist[o][e]  every value ever assigned to element e of o, in order;    *)
(*               a position in it is what the other fields talk about      *)
(*   rpos[o][e]  newest position whose assignment has returned             *)
(*   cpu[o][e]   value on the CPU side                                     *)
(*   ncpu, ngpu  strong handles to the CPU value / to the slots            *)
(*   rng[o]      <<first slot (-1: none), words per element, elements>>    *)
(*   made        objects created so far                                    *)
(*   recl        objects whose slots went back to the allocator            *)
(*   elig        dead objects that a commit may have reclaimed already     *)
(*   dret        dead objects all of whose drops have returned             *)
(*   free        slots known to be reclaimed and not handed out            *)
(*   top         end of the slots ever handed out                          *)
(*   pend[t]     the call in progress in thread t                          *)
(*   seen[b]     newest position observed in buffer b, per element         *)
(*   nb, gone    number of buffers created, buffers released               *)
(*   cur         the allocator's current buffer (0: none yet)              *)
(*   ctime[b]    creation time reported for buffer b (-1: not yet)         *)
(* Values, Alloc, Reclaim, Handles say which conditions are enforced.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Values, Alloc, Reclaim, Handles, Release

SubSet(S, T) == S \subseteq T

Slots(r) == IF r[1] < 0 THEN {} ELSE r[1] .. (r[1] + r[2] * r[3] - 1)
EndOf(r) == r[1] + r[2] * r[3]

Threads == 1 .. 4
Idle == [st |-> "idle"]

Zero(n) == [e \in 1 .. n |-> 0]

\* ne: element counts of all objects of the history
State0(ne, maxb) ==
  LET os == DOMAIN ne
      z == [o \in os |-> Zero(ne[o])]
  IN [hist |-> [o \in os |-> [e \in 1 .. ne[o] |-> <<>>]],
      rpos |-> z, cpu |-> z,
      ncpu |-> [o \in os |-> 0], ngpu |-> [o \in os |-> 0],
      rng |-> [o \in os |-> <<-1, 0, 0>>],
      made |-> {}, recl |-> {}, elig |-> {}, dret |-> {}, free |-> {}, top |-> 0,
      pend |-> [t \in Threads |-> Idle],
      seen |-> [b \in 1 .. maxb |-> z],
      nb |-> 0, gone |-> {}, cur |-> 0, ctime |-> [b \in 1 .. maxb |-> -1]]

Dead(s, o) == o \in s.made /\ s.ngpu[o] = 0
Calls(s, op) == {t \in Threads : s.pend[t].st \notin {"idle"} /\ s.pend[t].c.op = op}
Committing(s) == Calls(s, "commit") # {}

----------------------------------------------------------------------------
(* Observing a buffer. *)
Tag(v, k) == v * 8 + k

\* position of the element of h found at slot `at` of the words m: 0 if none of its values is
\* there, -1 if there is a mixture
PosAt(h, m, at, w) ==
  IF at + w > Len(m) THEN 0
  ELSE LET q == {p \in DOMAIN h : m[at + 1] = Tag(h[p], 0)}
       IN IF q # {}
          THEN LET p == CHOOSE p \in q : TRUE
               IN IF \A k \in 1 .. w - 1 : m[at + 1 + k] = Tag(h[p], k) THEN p ELSE -1
          ELSE IF \E k \in 1 .. w - 1 : \E p \in DOMAIN h : m[at + 1 + k] = Tag(h[p], k) THEN -1
          ELSE 0

Positions(s, m) ==
  [o \in DOMAIN s.hist |->
     IF o \notin s.made \/ o \in s.recl \/ s.rng[o][1] < 0 THEN Zero(Len(s.hist[o]))
     ELSE [e \in DOMAIN s.hist[o] |->
             PosAt(s.hist[o][e], m, s.rng[o][1] + (e - 1) * s.rng[o][2], s.rng[o][2])]]

Holders(s) == {o \in s.made \ s.recl : s.rng[o][1] >= 0}

\* nothing torn, nothing older than `least`
NotOlder(s, P, least) ==
  \A o \in Holders(s) : \A e \in DOMAIN P[o] : P[o][e] >= 0 /\ P[o][e] >= least[o][e]

SnapOk(s, b, P) == Values => NotOlder(s, P, s.seen[b])
Snap(s, b, P) == [s EXCEPT !.seen[b] = [o \in DOMAIN P |-> IF o \in Holders(s) THEN P[o] ELSE s.seen[b][o]]]

----------------------------------------------------------------------------
(* Calls and returns. *)
Call(s, t, c) ==
  LET p == IF c.op = "commit"
           THEN [st |-> "call", c |-> c, need |-> s.rpos, dd |-> {o \in s.dret : Dead(s, o)}, fresh |-> 0,
                 base |-> s.rpos]
           ELSE [st |-> "call", c |-> c]
      s1 == [s EXCEPT !.pend[t] = p]
  IN IF c.op = "commit" THEN [s1 EXCEPT !.elig = @ \cup {o \in s.made : s.ngpu[o] = 0}] ELSE s1

\* recompute which dead objects have no drop (or upgrade) in progress
Settled(s, o) ==
  \A t \in Threads : s.pend[t].st = "idle" \/ s.pend[t].c.op \notin {"drop", "up"} \/ s.pend[t].c.o # o

RetOk(s, t, P, len) ==
  LET p == s.pend[t] IN
  /\ p.st # "idle"
  /\ p.c.op \notin {"nop", "hasq"} => p.st = "done"
  /\ p.c.op = "commit" =>
       /\ p.fresh = 0
       /\ SnapOk(s, p.c.b, P)
       /\ \A o \in Holders(s) : s.ngpu[o] > 0 =>
            /\ Values => \A e \in DOMAIN P[o] : P[o][e] >= p.need[o][e]
            /\ Alloc => ((\E e \in DOMAIN P[o] : p.need[o][e] > 0) => len >= EndOf(s.rng[o]))

Ret(s, t, P) ==
  LET p == s.pend[t]
      s1 == [s EXCEPT !.pend[t] = Idle]
  IN CASE p.c.op = "commit" ->
            LET x == (p.dd \ s.recl) IN
            [Snap(s1, p.c.b, P) EXCEPT
               !.recl = @ \cup x,
               !.free = @ \cup UNION {Slots(s.rng[o]) : o \in x}]
       [] p.c.op = "new" ->
            [s1 EXCEPT !.rpos[p.c.o] = [e \in DOMAIN @ |-> IF @[e] < 1 THEN 1 ELSE @[e]]]
       [] p.c.op = "set" ->
            [s1 EXCEPT !.rpos[p.c.o][p.c.e] = IF @ < p.at THEN p.at ELSE @]
       [] p.c.op \in {"drop", "up"} ->
            IF Dead(s1, p.c.o) /\ Settled(s1, p.c.o) THEN [s1 EXCEPT !.dret = @ \cup {p.c.o}] ELSE s1
       [] OTHER -> s1

----------------------------------------------------------------------------
(* Where calls take effect. *)
Fits(S, n) == \E a \in S : a .. a + n - 1 \subseteq S

Overlap(s, r) == {o \in Holders(s) : Slots(s.rng[o]) \cap Slots(r) # {}}

NewOk(s, c) ==
  LET r == <<c.st, c.w, c.n>>
      x == Overlap(s, r)
      free1 == s.free \cup UNION {Slots(s.rng[o]) : o \in x}
  IN IF c.w * c.n = 0 THEN TRUE
     ELSE /\ Alloc => /\ c.st >= 0
                      /\ \A o \in x : Dead(s, o) /\ o \in s.elig
          /\ Reclaim => /\ \A o \in x : Dead(s, o) /\ o \in s.elig
                        /\ c.st <= s.top
                        /\ {i \in Slots(r) : i < s.top} \subseteq free1
                        /\ EndOf(r) > s.top => ~Fits(s.free, c.w * c.n)

DoNew(s, c) ==
  LET r == <<c.st, c.w, c.n>>
      x == {o \in Overlap(s, r) : Dead(s, o)}
      o == c.o
  IN [s EXCEPT
        !.made = @ \cup {o},
        !.hist[o] = [e \in DOMAIN @ |-> <<c.vs[e]>>],
        !.cpu[o] = [e \in DOMAIN @ |-> c.vs[e]],
        !.ncpu[o] = IF c.c THEN 1 ELSE 0,
        !.ngpu[o] = 1,
        !.rng[o] = r,
        !.recl = @ \cup x,
        !.free = (@ \cup UNION {Slots(s.rng[p]) : p \in x}) \ Slots(r),
        !.top = IF c.st >= 0 /\ EndOf(r) > @ THEN EndOf(r) ELSE @]

SetOk(s, c) == (c.c /\ c.old # -1 /\ Values) => c.old = s.cpu[c.o][c.e]
DoSet(s, c) ==
  LET s1 == [s EXCEPT !.hist[c.o][c.e] = Append(@, c.v)]
  IN IF c.c THEN [s1 EXCEPT !.cpu[c.o][c.e] = c.v] ELSE s1

DropGpu(s, o) ==
  LET s1 == [s EXCEPT !.ngpu[o] = @ - 1]
  IN IF s1.ngpu[o] = 0 /\ Committing(s) THEN [s1 EXCEPT !.elig = @ \cup {o}] ELSE s1

\* While a commit looks at an object it holds on to its slots for a moment.
UpOk(s, t, c) ==
  LET gpu == s.ngpu[c.o] > 0
      cpu == s.ncpu[c.o] > 0
      held == Committing(s) /\ c.o \notin s.recl
      other == \E u \in Calls(s, "up") : u # t /\ s.pend[u].c.o = c.o /\ s.pend[u].c.c
  IN Reclaim => IF c.ok THEN (gpu \/ held) /\ (c.c => (cpu \/ other))
                ELSE ~gpu \/ (c.c /\ ~cpu)
DoUp(s, c) ==
  IF ~c.ok THEN s
  ELSE [s EXCEPT !.ngpu[c.o] = @ + 1, !.ncpu[c.o] = IF c.c THEN @ + 1 ELSE @,
                 !.elig = @ \ {c.o}, !.dret = @ \ {c.o},
                 !.pend = [t \in Threads |->
                             IF @[t].st # "idle" /\ @[t].c.op = "commit" THEN [@[t] EXCEPT !.dd = @ \ {c.o}]
                             ELSE @[t]]]

RcOk(s, c) ==
  (Reclaim /\ c.res >= 0) =>
     c.res - s.ngpu[c.o] \in 0 .. (Cardinality(Calls(s, "commit"))
                                   + Cardinality({u \in Calls(s, "up") : s.pend[u].c.o = c.o}))

TimeOk(s, b, ct) ==
  b > 0 =>
    /\ s.ctime[b] \in {-1, ct}
    /\ \A x \in DOMAIN s.ctime : s.ctime[x] >= 0 => (x < b => s.ctime[x] < ct) /\ (x > b => s.ctime[x] > ct)

HandleOk(s, c) ==
  Handles =>
    CASE c.op \in {"commit", "getb"} -> c.b = s.cur /\ TimeOk(s, c.b, c.ct)
      [] c.op = "val" -> c.ok = (c.hb = s.cur)
      [] c.op = "upd" -> /\ c.b = s.cur /\ TimeOk(s, c.b, c.ct)
                         /\ IF c.ok THEN c.hb # c.b ELSE c.hb = c.b
DoHandle(s, c) == IF c.op # "val" /\ c.b > 0 THEN [s EXCEPT !.ctime[c.b] = c.ct] ELSE s

\* t's call takes effect (its next step)
LinEnabled(s, t) ==
  LET p == s.pend[t] IN
  /\ p.st \in {"call", "half"}
  /\ CASE p.c.op = "new" -> NewOk(s, p.c)
       [] p.c.op = "set" -> SetOk(s, p.c)
       [] p.c.op = "get" -> Values => p.c.res = s.cpu[p.c.o][p.c.e]
       [] p.c.op = "getv" -> Values => p.c.res = s.cpu[p.c.o]
       [] p.c.op = "up" -> UpOk(s, t, p.c)
       [] p.c.op = "rc" -> RcOk(s, p.c)
       [] p.c.op = "commit" -> p.fresh = 0 /\ HandleOk(s, p.c)
       [] p.c.op \in {"getb", "upd", "val"} -> HandleOk(s, p.c)
       [] p.c.op \in {"clone", "drop", "gpu"} -> TRUE
       [] OTHER -> FALSE

Lin(s, t) ==
  LET p == s.pend[t]
      done == [s EXCEPT !.pend[t].st = "done"]
  IN CASE p.c.op = "new" -> DoNew(done, p.c)
       [] p.c.op = "set" ->
            [DoSet(done, p.c) EXCEPT !.pend[t] = [st |-> "done", c |-> p.c, at |-> Len(s.hist[p.c.o][p.c.e]) + 1]]
       [] p.c.op = "up" -> DoUp(done, p.c)
       [] p.c.op = "clone" ->
            [done EXCEPT !.ngpu[p.c.o] = @ + 1, !.ncpu[p.c.o] = IF p.c.c THEN @ + 1 ELSE @]
       [] p.c.op = "gpu" -> [done EXCEPT !.ncpu[p.c.o] = @ - 1]
       [] p.c.op = "drop" ->
            IF p.c.c /\ p.st = "call"
            THEN [s EXCEPT !.pend[t].st = "half", !.ncpu[p.c.o] = @ - 1]
            ELSE DropGpu(done, p.c.o)
       [] p.c.op \in {"commit", "getb", "upd", "val"} -> DoHandle(done, p.c)
       [] OTHER -> done

----------------------------------------------------------------------------
(* What a commit does on the way. *)
Create(s, t, b) ==
  [s EXCEPT !.nb = b, !.pend[t].fresh = b]

\* the new buffer becomes the allocator's
SwapEnabled(s, t) ==
  s.pend[t].st \notin {"idle"} /\ s.pend[t].c.op = "commit" /\ s.pend[t].fresh # 0
Swap(s, t) == [s EXCEPT !.cur = s.pend[t].fresh, !.pend[t].fresh = 0]

CopyStart(s, t, b) == [s EXCEPT !.pend[t].base = s.seen[b]]
CopyOk(s, t, P) == Values => NotOlder(s, P, s.pend[t].base)
=============================================================================
