----------------------------- MODULE MCRegistry -----------------------------
(***************************************************************************)
(* Threads that use one mock.  FAM: all: any operation; calls: calls of    *)
(* the initial expectations; own: every thread has its own argument and    *)
(* expectations; one: only thread 1 calls, the others create and destroy   *)
(* expectations that it does not use; miss: nothing ever matches.          *)
(* EMIT: the schedules (only those on which the library keeps the          *)
(* property) or, for FREE, the programs of the threads are printed.        *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils

Fam == IOEnv.FAM
N == IF IOEnv.THREADS = "3" THEN 3 ELSE 2
Each == CASE IOEnv.OPS = "1" -> 1 [] IOEnv.OPS = "2" -> 2 [] IOEnv.OPS = "3" -> 3 [] OTHER -> 5
Emitting == IOEnv.EMIT # "0"
Free == IOEnv.EMIT = "free"
Sim == IOEnv.SIM = "1"
Threads == 1..N

VARIABLES st, left, next, hist, init
vars == << st, left, next, hist, init >>

Limits == { << 0, 1 >>, << 1, 1 >>, << 2, 2 >>, << 0, 2 >> }
\* what there is at first: up to two expectations, slots 0 and 1
Start == IF Fam \in {"own", "miss"} THEN { << >> }
         ELSE IF Fam = "one" THEN { << Create(0, 1, 0, 9), Create(1, 1, 3, 3) >> }
         ELSE { << >> } \union { << Create(0, p, l[1], l[2]) >> : p \in {0, 1}, l \in Limits }
              \union { << Create(0, p, l[1], l[2]), Create(1, q, m[1], m[2]) >> : p \in {0, 1}, q \in {1, 2}, l \in {<< 1, 1 >>, << 0, 2 >>}, m \in {<< 0, 1 >>, << 2, 2 >>} }

RECURSIVE Fold(_, _)
Fold(s, os) == IF os = << >> THEN s ELSE Fold(Begin(s, 0, Head(os)), Tail(os))

Args(t) == CASE Fam = "own" -> {t} [] Fam = "one" -> IF t = 1 THEN {1} ELSE {} [] Fam = "miss" -> {1} [] Fam = "calls" -> {1, 2} [] OTHER -> {1, 2}
Pats(t) == CASE Fam = "own" -> {t} [] Fam \in {"one", "miss"} -> IF t = 1 THEN {} ELSE {7} [] Fam = "calls" -> {} [] OTHER -> {0, 1}
Mine(t, x) == x >= 10 * t /\ x < 10 * t + 10     \* slots of a thread
Gone(t) == CASE Fam \in {"own", "one", "miss"} -> { x \in Live(st.A) : Mine(t, x) } [] Fam = "calls" -> {} [] OTHER -> Live(st.A)
\* nobody else destroys it at the moment
Owned(x) == \A u \in Threads : ~(st.op[u].op = "D" /\ st.op[u].x = x)

Menu(t) ==
    { CallOf(a) : a \in Args(t) } \union { Create(10 * t + next[t], p, l[1], l[2]) : p \in Pats(t), l \in IF Sim THEN Limits ELSE {<< 1, 1 >>, << 0, 2 >>} }
    \union { Destroy(x) : x \in { y \in Gone(t) : Owned(y) } }

Init ==
    /\ init \in (IF Sim THEN { s \in { RandomElement(Start) } : TRUE } ELSE Start)
    /\ st = Fold(St0(0..N), init)
    /\ left = [t \in Threads |-> Each]
    /\ next = [t \in Threads |-> 0]
    /\ hist = << >>

\* what the driver has to know: the step, and who waits for the lock after it
Line(k, t, o, s) == [k |-> k, t |-> t, o |-> o, wait |-> Waiting(s)]
Note(k, t, o, s) == hist' = IF Emitting THEN Append(hist, Line(k, t, o, s)) ELSE hist
Usable(s) == Emitting => ~s.unsafe

Start1(t, o) ==
    LET s == Begin(st, t, o) IN
    /\ Usable(s)
    /\ st' = [s EXCEPT !.race = @ \/ Racing(s)]
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ next' = IF o.op = "X" THEN [next EXCEPT ![t] = @ + 1] ELSE next
    /\ Note("B", t, o, s) /\ UNCHANGED init
Step1(t) ==
    LET s == Proceed(st, t) IN
    /\ Usable(s)
    /\ st' = [s EXCEPT !.race = @ \/ Racing(s)]
    /\ Note("G", t, NoOp, s) /\ UNCHANGED << left, next, init >>

CanStart(t) == st.at[t] = "idle" /\ left[t] > 0 /\ (st.lock # -1 => Waiting(st) = {})
CanStep(t) == st.at[t] \notin {"idle", "want"}
Pick(A) == RandomElement(A)
Next ==
    /\ ~st.unsafe
    /\ IF Sim
       THEN LET able == { t \in Threads : CanStart(t) \/ CanStep(t) } IN
            /\ able # {}
            /\ \E t \in { Pick(able) } : IF CanStep(t) THEN Step1(t) ELSE \E k \in { Pick(1..3) } : \E o \in { Pick(Menu(t)) } : Start1(t, o)
       ELSE \E t \in Threads : (CanStart(t) /\ \E o \in Menu(t) : Start1(t, o)) \/ (CanStep(t) /\ Step1(t))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* every history that is not linearizable looked at an expectation between the decision for a match and its end
Linearizable == st.lin = {} => st.unsafe
Quiet == Fam \in {"own", "one", "miss"} => ~st.unsafe
NoRace == Fam \in {"one", "miss"} => ~st.race
Counts == ~st.unsafe => \A x \in Live(st.A) : st.A.e[x].n <= st.A.e[x].max
\* nobody holds the lock forever, and who waits, waits for somebody who can go on
NoDeadlock == (\E t \in Threads : left[t] > 0 \/ st.at[t] # "idle") => \E t \in Threads : CanStart(t) \/ CanStep(t)

Done == \A t \in Threads : left[t] = 0 /\ st.at[t] = "idle"
OpLine(o) == IF o.op = "C" THEN << "C", o.a >> ELSE IF o.op = "X" THEN << "X", o.x, o.a, o.min, o.max >> ELSE << "D", o.x >>
Mask(s) == (IF 1 \in s THEN 2 ELSE 0) + (IF 2 \in s THEN 4 ELSE 0) + (IF 3 \in s THEN 8 ELSE 0)
Starts == [i \in DOMAIN init |-> << "E" >> \o OpLine(init[i])]
Steps == [i \in DOMAIN hist |-> << hist[i].k, hist[i].t, Mask(hist[i].wait) >> \o (IF hist[i].k = "B" THEN OpLine(hist[i].o) ELSE << >>)]
Programs == LET bs == SelectSeq(hist, LAMBDA h : h.k = "B") IN [i \in DOMAIN bs |-> << "P", bs[i].t >> \o OpLine(bs[i].o)]
Emit == (Emitting /\ Done) => PrintT("SCRIPT " \o ToJson(Starts \o (IF Free THEN Programs \o << << "R" >> >> ELSE Steps)))
=============================================================================
