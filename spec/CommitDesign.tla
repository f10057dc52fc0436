---------------------------- MODULE CommitDesign ----------------------------
(***************************************************************************)
(* The allocator at the grain of its locks, channel and counters: every    *)
(* step is what a thread does between two points at which others can       *)
(* interfere.  Two or three threads run short programs, sharing one value; *)
(* when all are done one of them commits again.                            *)
(*                                                                         *)
(* The design carries a state `a` of ConcAlloc along: at the step at which *)
(* a call takes effect the corresponding step of ConcAlloc is taken, and   *)
(* `bad` names the first one ConcAlloc did not allow.  bad = "" therefore  *)
(* says that the design refines ConcAlloc, whose conditions are those the  *)
(* histories of the real code are held against.                            *)
(*                                                                         *)
(* Flaws re-introduces defects the code has had; each must be refuted.     *)
(*   split    space is looked for and taken in two critical sections       *)
(*   early    a new source is announced before it is known                 *)
(*   unserial commits are not serialized                                   *)
(*   expand   the buffer is replaced before the updates are collected      *)
(*   notify   a drop is announced before the value is let go               *)
(*   clear    the queue is read and cleared in two critical sections       *)
(*   late     the invalidation is published after the new buffer           *)
(*   unlock   an assignment unlocks the CPU value before it queues it      *)
(*   hold     a creation keeps the free list locked while it registers     *)
(***************************************************************************)
EXTENDS ConcAlloc

CONSTANTS Alphabet,         \* calls the programs are made of
          LenA, LenB, LenC, \* how many each thread makes at most; 0: there is no third thread
          Scenarios, Flaws

MCTrue == TRUE
Flaw(f) == f \in Flaws

VARIABLES d,    \* what the threads share
          th,   \* what each thread is doing
          a,    \* the abstract state
          bad   \* the first thing the abstract state did not allow
vars == <<d, th, a, bad>>

Lens == IF LenC = 0 THEN <<LenA, LenB>> ELSE <<LenA, LenB, LenC>>
NT == Len(Lens)
T == 1 .. NT
Shared == 1
Max(x, y) == IF x >= y THEN x ELSE y
\* objects a thread may create: one per call
NewObj(t, j) == 2 + (t - 1) * 2 + j
NObj == 2 + 2 * NT
Size(o) == IF o = 1 THEN 2 ELSE IF o % 2 = 0 THEN 1 ELSE 2
Big == 5

----------------------------------------------------------------------------
(* Initial states, reached by sequential calls.                             *)
(* The shared value has a handle per thread, object 2 is nobody's business. *)
RECURSIVE Clones(_, _)
Seq1(s, c) == LET s1 == Call(s, 1, c) IN Ret(Lin(s1, 1), 1, << >>)
Clones(s, n) == IF n = 0 THEN s ELSE Clones(Seq1(s, [op |-> "clone", o |-> Shared, c |-> TRUE]), n - 1)
A0(base1, base2) ==
  LET s0 == State0([o \in 1 .. NObj |-> 1], 8)
      s1 == Seq1(s0, [op |-> "new", o |-> 2, st |-> base2, w |-> 1, n |-> 1, vs |-> <<2>>, c |-> FALSE])
      s2 == Seq1(s1, [op |-> "new", o |-> Shared, st |-> base1, w |-> 2, n |-> 1, vs |-> <<1>>, c |-> TRUE])
  IN Clones(s2, NT - 1)

\* scenario 1: nothing committed yet
\* scenario 2: committed, two reclaimed slots in front, the buffer (4 slots) is otherwise full
Obj0(base, upd) == [base |-> base, size |-> 0, strong |-> 0, upd |-> upd, cpu |-> 1]
Objs0(sc) ==
  [o \in 1 .. NObj |->
     CASE o = 1 -> [base |-> IF sc = 1 THEN 1 ELSE 2, size |-> 2, strong |-> NT, upd |-> IF sc = 1 THEN 1 ELSE 0, cpu |-> 1]
       [] o = 2 -> [base |-> IF sc = 1 THEN 0 ELSE 4, size |-> 1, strong |-> 1, upd |-> IF sc = 1 THEN 2 ELSE 0, cpu |-> 2]
       [] OTHER -> [base |-> -1, size |-> 0, strong |-> 0, upd |-> 0, cpu |-> 0]]
NoWord == <<0, 0>>
D0(sc) ==
  [objs |-> Objs0(sc),
   len |-> IF sc = 1 THEN 3 ELSE 5, cap |-> IF sc = 1 THEN 4 ELSE 5, needs |-> sc = 1,
   free |-> IF sc = 1 THEN {} ELSE {0, 1},
   reg |-> {1, 2}, q |-> IF sc = 1 THEN {1, 2} ELSE {}, uq |-> {},
   buf |-> IF sc = 1 THEN 0 ELSE 1,
   bufs |-> IF sc = 1 THEN << >> ELSE << [k |-> 1, w |-> [x \in 0 .. 4 |-> IF x \in {2, 3} THEN <<1, 1>>
                                                                       ELSE IF x = 4 THEN <<2, 2>> ELSE NoWord]] >>,
   invk |-> IF sc = 1 THEN 0 ELSE 1, invalk |-> IF sc = 1 THEN 0 ELSE 1,
   cl |-> 0, rl |-> 0, gl |-> 0, cpul |-> 0]
AInit(sc) ==
  IF sc = 1 THEN A0(1, 0)
  ELSE LET s == A0(2, 4)
       IN [s EXCEPT !.nb = 1, !.cur = 1, !.ctime[1] = 1, !.free = {0, 1}, !.top = 5,
                    !.seen[1] = [o \in DOMAIN s.seen[1] |-> IF o \in {1, 2} THEN <<1>> ELSE <<0>>]]

Progs(n) == UNION {[1 .. m -> Alphabet] : m \in 0 .. n}
\* has: what is left of the thread's handle of the shared value; weak: a GPU-only weak handle, always there
Thread0(p, b) == [pc |-> "idle", ops |-> p, at |-> 0, has |-> "cpu", hb |-> b, x |-> << >>]

Init ==
  /\ \E sc \in Scenarios : d = D0(sc) /\ a = AInit(sc)
  /\ th \in [T -> {Thread0(p, b) : p \in Progs(Max(Lens[1], Max(Lens[2], Lens[NT]))), b \in {0, 1}}]
  /\ \A t \in T : Len(th[t].ops) <= Lens[t] /\ th[t].hb = d.buf
  /\ \A t \in T : Len(th[t].ops) > 0
  /\ bad = ""

----------------------------------------------------------------------------
(* Helpers *)
Tok(t) == 100 + 10 * t + th[t].at                 \* the value an assignment of t's current call stores
Judge(name, ok) == bad' = IF bad # "" \/ ok THEN bad ELSE name
Quiet == bad' = bad

\* positions of the values found in words w
PosIn(s, w) ==
  [o \in DOMAIN s.hist |->
     IF o \notin s.made \/ o \in s.recl \/ s.rng[o][1] < 0 THEN <<0>>
     ELSE LET r == s.rng[o]
              found == [x \in Slots(r) |-> IF x \in DOMAIN w /\ w[x][1] = o THEN w[x][2] ELSE 0]
              vs == {found[x] : x \in Slots(r)}
              h == s.hist[o][1]
          IN IF Cardinality(vs) > 1 THEN <<-1>>
             ELSE LET v == CHOOSE v \in vs : TRUE
                  IN IF v = 0 THEN <<0>>
                     ELSE <<CHOOSE p \in DOMAIN h : h[p] = v>>]

Run(t, pc) == [th EXCEPT ![t].pc = pc]
RunX(t, pc, x) == [th EXCEPT ![t].pc = pc, ![t].x = x]

\* calls
Begin(t, c) == a' = Call(a, t, c)
Finish(t) == th' = [th EXCEPT ![t].pc = "idle", ![t].x = << >>]
FinishH(t, has) == th' = [th EXCEPT ![t].pc = "idle", ![t].x = << >>, ![t].has = has]
Return(t, name) == /\ a' = Ret(a, t, << >>)
                   /\ Judge(name, RetOk(a, t, << >>, 0))
\* the call takes effect, with results only known now
Effect(t, c, name) ==
  LET s == [a EXCEPT !.pend[t].c = c]
  IN /\ Judge(name, LinEnabled(s, t))
     /\ a' = Lin(s, t)

----------------------------------------------------------------------------
(* Starting a call *)
Start(t) ==
  /\ th[t].pc = "idle" /\ th[t].at < Len(th[t].ops)
  /\ LET op == th[t].ops[th[t].at + 1]
         go(pc) == th' = [th EXCEPT ![t].at = @ + 1, ![t].pc = pc]
         skip == th' = [th EXCEPT ![t].at = @ + 1] /\ a' = a
         has == th[t].has
     IN /\ d' = d /\ Quiet
        /\ CASE op \in {"new", "big"} -> go("n1") /\ Begin(t, [op |-> "new"])
             [] op \in {"set", "get"} ->
                  IF has = "cpu" THEN go(IF op = "set" THEN "s1" ELSE "g1") /\ Begin(t, [op |-> op]) ELSE skip
             [] op = "gset" ->
                  IF has # "none" THEN go("s3") /\ Begin(t, [op |-> "set"]) ELSE skip
             [] op = "drop" ->
                  IF has # "none" THEN go(IF has = "cpu" THEN "d0" ELSE "d1")
                                       /\ Begin(t, [op |-> "drop", o |-> Shared, c |-> has = "cpu"]) ELSE skip
             [] op = "gpu" ->
                  IF has = "cpu" THEN go("gpu") /\ Begin(t, [op |-> "gpu", o |-> Shared]) ELSE skip
             [] op = "upg" ->
                  IF has = "none" THEN go("up") /\ Begin(t, [op |-> "up", o |-> Shared, c |-> FALSE]) ELSE skip
             [] op = "defrag" -> go("df") /\ a' = a
             [] op = "ids" -> go("ids") /\ a' = a
             [] op = "commit" -> go("c0") /\ Begin(t, [op |-> "commit"])
             [] op = "getb" -> go("b1") /\ Begin(t, [op |-> "getb"])
             [] op = "upd" -> IF th[t].hb # 0 THEN go("u1") /\ Begin(t, [op |-> "upd"]) ELSE skip
             [] op = "val" -> IF th[t].hb # 0 THEN go("v1") /\ Begin(t, [op |-> "val"]) ELSE skip

----------------------------------------------------------------------------
(* Creating a value *)
Mine(t) == NewObj(t, th[t].at)
Want(t) == IF th[t].ops[th[t].at] = "big" THEN Big ELSE Size(Mine(t))
NewCall(t, base) == [op |-> "new", o |-> Mine(t), st |-> base, w |-> Want(t), n |-> 1, vs |-> <<Tok(t)>>, c |-> FALSE]
Runs(n) == {b \in d.free : \A j \in 0 .. n - 1 : b + j \in d.free}
Place(t, base, d1) ==
  /\ d' = [d1 EXCEPT !.objs[Mine(t)] = [base |-> base, size |-> Want(t), strong |-> 1, upd |-> 0, cpu |-> 0]]
  /\ Effect(t, NewCall(t, base), "new")

N1(t) == \* look for reclaimed space
  /\ th[t].pc = "n1" /\ d.rl = 0
  /\ IF Runs(Want(t)) # {}
     THEN \E b \in Runs(Want(t)) :
            /\ Place(t, b, [d EXCEPT !.free = @ \ (b .. b + Want(t) - 1)])
            /\ th' = Run(t, "n5")
     ELSE /\ d' = IF Flaw("split") THEN d ELSE [d EXCEPT !.rl = t]
          /\ th' = Run(t, "n2") /\ a' = a /\ Quiet
N2(t) == \* enough capacity?
  /\ th[t].pc = "n2"
  /\ LET need == d.len + Want(t) IN
     IF need > d.cap
     THEN d' = [d EXCEPT !.cap = need] /\ th' = Run(t, "n3")
     ELSE d' = d /\ th' = Run(t, "n4")
  /\ a' = a /\ Quiet
N3(t) == th[t].pc = "n3" /\ d' = [d EXCEPT !.needs = TRUE] /\ th' = Run(t, "n4") /\ a' = a /\ Quiet
N4(t) == \* take it
  /\ th[t].pc = "n4"
  /\ Place(t, d.len, [d EXCEPT !.len = @ + Want(t), !.rl = IF @ = t /\ ~Flaw("hold") THEN 0 ELSE @])
  /\ th' = Run(t, "n5")
N5(t) == \* queue its first value and announce it; nobody can find it yet
  /\ th[t].pc = "n5"
  /\ d' = [d EXCEPT !.objs[Mine(t)].upd = Tok(t), !.q = @ \cup {Mine(t)}]
  /\ th' = Run(t, "n6") /\ a' = a /\ Quiet
N6(t) == \* make it known
  /\ th[t].pc = "n6" /\ d.gl = 0
  /\ d' = [d EXCEPT !.reg = @ \cup {Mine(t)}, !.rl = IF @ = t THEN 0 ELSE @]
  /\ th' = Run(t, IF Flaw("early") THEN "n8" ELSE "n7") /\ a' = a /\ Quiet
N7(t) == \* announce it
  /\ th[t].pc = "n7"
  /\ d' = [d EXCEPT !.q = @ \cup {Mine(t)}]
  /\ th' = Run(t, "n8") /\ a' = a /\ Quiet
N8(t) == th[t].pc = "n8" /\ d' = d /\ Return(t, "new returned") /\ Finish(t)

----------------------------------------------------------------------------
(* Assigning to the shared value, reading it *)
SetCall(t, cpu, old) == [op |-> "set", o |-> Shared, e |-> 1, v |-> Tok(t), c |-> cpu, old |-> old]
S1(t) == /\ th[t].pc = "s1" /\ d.cpul = 0
         /\ d' = [d EXCEPT !.cpul = t] /\ th' = Run(t, "s2") /\ a' = a /\ Quiet
S2(t) == /\ th[t].pc = "s2"
         /\ d' = [d EXCEPT !.objs[Shared].cpu = Tok(t), !.cpul = IF Flaw("unlock") THEN 0 ELSE @]
         /\ th' = RunX(t, "s3c", d.objs[Shared].cpu)
         /\ IF Flaw("unlock") THEN Effect(t, SetCall(t, TRUE, d.objs[Shared].cpu), "set") ELSE a' = a /\ Quiet
S3c(t) == \* queue it
  /\ th[t].pc = "s3c"
  /\ d' = [d EXCEPT !.objs[Shared].upd = Tok(t)]
  /\ th' = Run(t, "s4")
  /\ IF Flaw("unlock") THEN a' = a /\ Quiet ELSE Effect(t, SetCall(t, TRUE, th[t].x), "set")
S3(t) == /\ th[t].pc = "s3"
         /\ d' = [d EXCEPT !.objs[Shared].upd = Tok(t)]
         /\ th' = Run(t, "s4")
         /\ Effect(t, SetCall(t, FALSE, -1), "gset")
S4(t) == \* announce it
  /\ th[t].pc = "s4"
  /\ d' = [d EXCEPT !.q = @ \cup {Shared}]
  /\ th' = Run(t, "s5") /\ a' = a /\ Quiet
S5(t) == /\ th[t].pc = "s5"
         /\ d' = [d EXCEPT !.cpul = IF @ = t THEN 0 ELSE @]
         /\ Return(t, "set returned") /\ Finish(t)
G1(t) == /\ th[t].pc = "g1" /\ d.cpul = 0
         /\ d' = d /\ th' = Run(t, "g2")
         /\ Effect(t, [op |-> "get", o |-> Shared, e |-> 1, res |-> d.objs[Shared].cpu], "get")
G2(t) == th[t].pc = "g2" /\ d' = d /\ Return(t, "get returned") /\ Finish(t)

----------------------------------------------------------------------------
(* Handles of the shared value *)
Drop0(t) == \* the CPU part; which clone is the last one does not matter to anybody else
  /\ th[t].pc = "d0" /\ d' = d /\ th' = Run(t, IF Flaw("notify") THEN "d2" ELSE "d1")
  /\ Effect(t, a.pend[t].c, "drop")
Drop1(t) ==
  /\ th[t].pc = "d1"
  /\ d' = [d EXCEPT !.objs[Shared].strong = @ - 1]
  /\ th' = Run(t, IF Flaw("notify") THEN "d3" ELSE "d2")
  /\ Effect(t, a.pend[t].c, "drop")
Drop2(t) == /\ th[t].pc = "d2"
            /\ d' = [d EXCEPT !.q = @ \cup {Shared}]
            /\ th' = Run(t, IF Flaw("notify") THEN "d1" ELSE "d3") /\ a' = a /\ Quiet
Drop3(t) == th[t].pc = "d3" /\ d' = d /\ Return(t, "drop returned") /\ FinishH(t, "none")
GpuOnly(t) == \/ /\ th[t].pc = "gpu" /\ d' = d /\ th' = Run(t, "gpu2") /\ Effect(t, a.pend[t].c, "gpu")
              \/ /\ th[t].pc = "gpu2" /\ d' = d /\ Return(t, "gpu returned") /\ FinishH(t, "gpu")
Up(t) == \/ /\ th[t].pc = "up"
            /\ LET ok == d.objs[Shared].strong > 0 IN
               /\ d' = IF ok THEN [d EXCEPT !.objs[Shared].strong = @ + 1] ELSE d
               /\ th' = RunX(t, "up2", IF ok THEN "gpu" ELSE "none")
               /\ Effect(t, [op |-> "up", o |-> Shared, c |-> FALSE, ok |-> ok], "up")
         \/ /\ th[t].pc = "up2" /\ d' = d /\ Return(t, "up returned") /\ FinishH(t, th[t].x)

----------------------------------------------------------------------------
(* Questions that touch what commits use *)
Defrag(t) == th[t].pc = "df" /\ d.rl = 0 /\ d' = d /\ a' = a /\ Quiet /\ Finish(t)
Ids(t) == th[t].pc = "ids" /\ d' = [d EXCEPT !.uq = @ \cup d.q, !.q = {}] /\ a' = a /\ Quiet /\ Finish(t)

----------------------------------------------------------------------------
(* Commit.  x: [k, todo (sources), o (source at hand), w (words to write), b (buffer)] *)
Serial == ~Flaw("unserial")
C0(t) == /\ th[t].pc = "c0" /\ (Serial => d.cl = 0)
         /\ d' = [d EXCEPT !.cl = IF Serial THEN t ELSE @, !.invk = @ + 1]
         /\ th' = RunX(t, IF Flaw("expand") THEN "c6" ELSE "c2",
                       [k |-> d.invk + 1, todo |-> {}, o |-> 0, w |-> << >>, b |-> 0])
         /\ a' = a /\ Quiet
C2(t) == \* take the announcements
  /\ th[t].pc = "c2"
  /\ d' = [d EXCEPT !.uq = IF Flaw("clear") THEN @ \cup d.q ELSE {}, !.q = {}]
  /\ th' = [th EXCEPT ![t].pc = "c3", ![t].x.todo = d.uq \cup d.q]
  /\ a' = a /\ Quiet
C3(t) == /\ th[t].pc = "c3" /\ d.gl = 0
         /\ d' = [d EXCEPT !.gl = t] /\ th' = Run(t, "c3b") /\ a' = a /\ Quiet
C3b(t) == /\ th[t].pc = "c3b" /\ d.rl = 0
          /\ d' = [d EXCEPT !.rl = t] /\ th' = Run(t, "c4") /\ a' = a /\ Quiet
C4(t) == \* next source: forgotten when nobody holds it, else held for a moment
  /\ th[t].pc = "c4"
  /\ a' = a /\ Quiet
  /\ IF th[t].x.todo = {}
     THEN /\ d' = [d EXCEPT !.rl = 0, !.gl = 0]
          /\ th' = Run(t, IF Flaw("clear") THEN "c2c" ELSE IF Flaw("expand") THEN "c8" ELSE "c6")
     ELSE \E o \in th[t].x.todo :
            LET done == [th EXCEPT ![t].x.todo = @ \ {o}] IN
            IF o \notin d.reg THEN d' = d /\ th' = done
            ELSE IF d.objs[o].strong = 0
            THEN /\ d' = [d EXCEPT !.reg = @ \ {o},
                                   !.free = @ \cup (d.objs[o].base .. d.objs[o].base + d.objs[o].size - 1)]
                 /\ th' = done
            ELSE d' = d /\ th' = [done EXCEPT ![t].pc = "c5", ![t].x.o = o]
C5(t) == \* upgrade the weak reference: the value may have gone since
  /\ th[t].pc = "c5"
  /\ a' = a /\ Quiet
  /\ LET o == th[t].x.o IN
     IF d.objs[o].strong = 0 THEN d' = d /\ th' = Run(t, "c4")
     ELSE /\ d' = [d EXCEPT !.objs[o].strong = @ + 1]
          /\ th' = Run(t, "c5b")
C5b(t) == \* take its updates
  /\ th[t].pc = "c5b"
  /\ a' = a /\ Quiet
  /\ LET o == th[t].x.o
         ob == d.objs[o]
     IN /\ d' = [d EXCEPT !.objs[o].upd = 0]
        /\ th' = [th EXCEPT ![t].pc = "c5c",
                            ![t].x.w = IF ob.upd = 0 THEN @
                                       ELSE [x \in ob.base .. ob.base + ob.size - 1 |-> <<o, ob.upd>>] @@ @]
C5c(t) == \* and let go of it
  /\ th[t].pc = "c5c"
  /\ d' = [d EXCEPT !.objs[th[t].x.o].strong = @ - 1]
  /\ th' = Run(t, "c4") /\ a' = a /\ Quiet
C2c(t) == \* (flaw) only now is the queue cleared
  /\ th[t].pc = "c2c" /\ d' = [d EXCEPT !.uq = {}]
  /\ th' = Run(t, IF Flaw("expand") THEN "c8" ELSE "c6") /\ a' = a /\ Quiet
After == IF Flaw("expand") THEN "c2" ELSE "c8"
CCall(t, b) == [op |-> "commit", b |-> b, ct |-> d.bufs[b].k]
C6(t) == \* does it have to grow?
  /\ th[t].pc = "c6"
  /\ IF d.needs THEN /\ d' = [d EXCEPT !.needs = FALSE] /\ th' = Run(t, "c7") /\ a' = a /\ Quiet
     ELSE /\ d' = d
          /\ th' = [th EXCEPT ![t].pc = After, ![t].x.b = d.buf]
          /\ IF d.buf = 0 THEN Judge("no buffer", FALSE) /\ a' = a
             ELSE Effect(t, CCall(t, d.buf), "commit")
C7(t) == \* make a buffer
  /\ th[t].pc = "c7"
  /\ LET b == Len(d.bufs) + 1 IN
     /\ d' = [d EXCEPT !.bufs = Append(@, [k |-> th[t].x.k, w |-> [x \in 0 .. d.cap - 1 |-> NoWord]])]
     /\ th' = [th EXCEPT ![t].pc = "c7b", ![t].x.b = b]
     /\ a' = Create(a, t, b) /\ Quiet
C7b(t) == \* copy and replace, under the buffer's lock
  /\ th[t].pc = "c7b"
  /\ LET b == th[t].x.b
         w == d.bufs[b].w
         old == IF d.buf = 0 THEN << >> ELSE d.bufs[d.buf].w
         words == [x \in DOMAIN w |-> IF x \in DOMAIN old THEN old[x] ELSE w[x]]
         d1 == [d EXCEPT !.bufs[b].w = words, !.buf = b,
                         !.invalk = IF Flaw("late") THEN @ ELSE th[t].x.k]
         s1 == Swap(a, t)
         s2 == [s1 EXCEPT !.pend[t].c = [op |-> "commit", b |-> b, ct |-> d.bufs[b].k]]
         s3 == IF d.buf = 0 THEN s2 ELSE CopyStart(s2, t, d.buf)
         P == PosIn(s3, words)
     IN /\ d' = d1
        /\ Judge("grow", LinEnabled(s2, t) /\ (d.buf # 0 => CopyOk(s3, t, P)) /\ DOMAIN old \subseteq DOMAIN w)
        /\ a' = Lin(Snap(s3, b, P), t)
        /\ th' = Run(t, IF Flaw("late") THEN "c7c" ELSE After)
C7c(t) == /\ th[t].pc = "c7c" /\ d' = [d EXCEPT !.invalk = th[t].x.k] /\ th' = Run(t, After) /\ a' = a /\ Quiet
\* write one update (values of one source) after the other
C8(t) ==
  /\ th[t].pc = "c8"
  /\ LET b == th[t].x.b
         w == th[t].x.w
     IN IF b = 0 THEN d' = d /\ a' = a /\ Judge("no buffer", FALSE) /\ th' = [th EXCEPT ![t].pc = "stuck"]
        ELSE IF DOMAIN w = {}
        THEN /\ d' = [d EXCEPT !.cl = IF Serial THEN 0 ELSE @]
             /\ LET P == PosIn(a, d.bufs[b].w)
                IN /\ Judge("commit returned", RetOk(a, t, P, Cardinality(DOMAIN d.bufs[b].w)))
                   /\ a' = Ret(a, t, P)
             /\ th' = [th EXCEPT ![t].pc = "idle", ![t].x = << >>, ![t].hb = b]
        ELSE LET o == w[CHOOSE x \in DOMAIN w : \A y \in DOMAIN w : x <= y][1]
                 mine == {x \in DOMAIN w : w[x][1] = o}
                 words == [x \in DOMAIN d.bufs[b].w |-> IF x \in mine THEN w[x] ELSE d.bufs[b].w[x]]
                 P == PosIn(a, words)
             IN IF ~(mine \subseteq DOMAIN d.bufs[b].w)
                THEN d' = d /\ a' = a /\ Judge("write outside of the buffer", FALSE) /\ th' = [th EXCEPT ![t].pc = "stuck"]
                ELSE /\ d' = [d EXCEPT !.bufs[b].w = words]
                     /\ th' = [th EXCEPT ![t].x.w = [x \in DOMAIN w \ mine |-> w[x]]]
                     /\ Judge("older value", SnapOk(a, b, P))
                     /\ a' = Snap(a, b, P)

----------------------------------------------------------------------------
(* Buffer handles *)
KOf(b) == IF b = 0 THEN -1 ELSE d.bufs[b].k
B1(t) == /\ th[t].pc = "b1" /\ d' = d /\ th' = RunX(t, "b2", d.buf)
         /\ Effect(t, [op |-> "getb", b |-> d.buf, ct |-> KOf(d.buf)], "getb")
B2(t) == /\ th[t].pc = "b2" /\ d' = d /\ Return(t, "getb returned")
         /\ th' = [th EXCEPT ![t].pc = "idle", ![t].hb = IF th[t].x # 0 THEN th[t].x ELSE @, ![t].x = << >>]
Stale(t) == d.bufs[th[t].hb].k < d.invalk
U1(t) == /\ th[t].pc = "u1" /\ d' = d
         /\ IF Stale(t) THEN th' = Run(t, "u2") /\ a' = a /\ Quiet
            ELSE /\ th' = RunX(t, "b2", th[t].hb)
                 /\ Effect(t, [op |-> "upd", ok |-> FALSE, hb |-> th[t].hb, b |-> th[t].hb, ct |-> KOf(th[t].hb)], "upd")
U2(t) == /\ th[t].pc = "u2" /\ d' = d /\ th' = RunX(t, "b2", d.buf)
         /\ Effect(t, [op |-> "upd", ok |-> TRUE, hb |-> th[t].hb, b |-> d.buf, ct |-> KOf(d.buf)], "upd")
V1(t) == /\ th[t].pc = "v1" /\ d' = d /\ th' = RunX(t, "b2", th[t].hb)
         /\ Effect(t, [op |-> "val", ok |-> ~Stale(t), hb |-> th[t].hb], "val")

----------------------------------------------------------------------------
AllDone == \A t \in T : th[t].pc = "idle" /\ th[t].at = Len(th[t].ops)
\* one more commit when everybody is done
Last == /\ AllDone /\ th[1].ops # <<"end">>
        /\ th' = [th EXCEPT ![1].ops = <<"end">>, ![1].at = 1, ![1].pc = "c0"]
        /\ d' = d /\ Quiet /\ a' = Call(a, 1, [op |-> "commit"])
Over == AllDone /\ th[1].ops = <<"end">>

Step(t) ==
  \/ Start(t)
  \/ N1(t) \/ N2(t) \/ N3(t) \/ N4(t) \/ N5(t) \/ N6(t) \/ N7(t) \/ N8(t)
  \/ S1(t) \/ S2(t) \/ S3c(t) \/ S3(t) \/ S4(t) \/ S5(t) \/ G1(t) \/ G2(t)
  \/ Drop0(t) \/ Drop1(t) \/ Drop2(t) \/ Drop3(t) \/ GpuOnly(t) \/ Up(t) \/ Defrag(t) \/ Ids(t)
  \/ C0(t) \/ C2(t) \/ C3(t) \/ C3b(t) \/ C4(t) \/ C5(t) \/ C5b(t) \/ C5c(t) \/ C2c(t) \/ C6(t) \/ C7(t) \/ C7b(t) \/ C7c(t) \/ C8(t)
  \/ B1(t) \/ B2(t) \/ U1(t) \/ U2(t) \/ V1(t)
Next == bad = "" /\ ((\E t \in T : Step(t)) \/ Last \/ (Over /\ UNCHANGED vars))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The design refines ConcAlloc *)
Refines == bad = ""
\* nobody is left waiting: TLC's deadlock check, and
NotStuck == \A t \in T : th[t].pc # "stuck"
\* C11: slots have one owner
Exclusive == \A o, p \in 1 .. NObj : (o # p /\ o \in a.made \ a.recl /\ p \in a.made \ a.recl /\ ~Dead(a, o) /\ ~Dead(a, p))
                => Slots(a.rng[o]) \cap Slots(a.rng[p]) = {}
\* C10: at the end the buffer holds what the CPU side says
FinalValues ==
  Over => /\ \A x \in 0 .. 1 : d.objs[Shared].strong > 0 =>
               LET h == a.hist[Shared][1] IN d.bufs[d.buf].w[d.objs[Shared].base + x] = <<Shared, h[Len(h)]>>
          /\ \A o \in 3 .. NObj : o \in a.made => d.bufs[d.buf].w[d.objs[o].base] = <<o, a.hist[o][1][1]>>
\* C12: at the end nothing is lost
FinalSpace ==
  Over => /\ d.free \cup UNION {d.objs[o].base .. d.objs[o].base + d.objs[o].size - 1 :
                                   o \in {p \in 1 .. NObj : d.objs[p].strong > 0}} = 0 .. d.len - 1
          /\ d.q = {} /\ d.uq = {}
\* C13: at the end handles can tell whether they are current
FinalHandles == Over => \A b \in DOMAIN d.bufs : (d.bufs[b].k < d.invalk) = (b # d.buf)
=============================================================================
