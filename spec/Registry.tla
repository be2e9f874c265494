------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* One mock int(int) used by several threads.                              *)
(*  - Do: the sequential meaning of an operation, whole.                   *)
(*  - Lin..: the sequential orders that explain a concurrent history, kept *)
(*    as a set of configurations (state, and which pending operations took *)
(*    effect already, with which result).  Empty: not linearizable.        *)
(*  - the library: threads that stop at the places where user code runs    *)
(*    (a matcher within the scan, the reporter, the finalizer).            *)
(* Threads are numbers, 0 is the main thread.  pat 0 accepts everything.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Op(k, x, a, min, max) == [op |-> k, x |-> x, a |-> a, min |-> min, max |-> max]
CallOf(a) == Op("C", 0, a, 0, 0)
Create(x, pat, min, max) == Op("X", x, pat, min, max)
Destroy(x) == Op("D", x, 0, 0, 0)
NoOp == Op("", 0, 0, 0, 0)
Res(v, ids) == [v |-> v, ids |-> ids]

\* ord: live slots, oldest first; e: the expectation of a slot
A0 == [e |-> << >>, ord |-> << >>]
Put(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Live(A) == DOMAIN A.e
Accepts(e, a) == e.pat = 0 \/ e.pat = a
Satisfied(e) == e.min <= e.n /\ e.n <= e.max
Newest(A, P(_)) == SelectSeq([i \in 1..Len(A.ord) |-> A.ord[Len(A.ord) + 1 - i]], P)

Scan(A, a) ==
    LET ok == Newest(A, LAMBDA x : Accepts(A.e[x], a) /\ A.e[x].n < A.e[x].max)
        full == Newest(A, LAMBDA x : Accepts(A.e[x], a))
    IN IF ok # << >> THEN Res("ok", << ok[1] >>) ELSE IF full # << >> THEN Res("inapp", full) ELSE Res("none", Newest(A, LAMBDA x : TRUE))
Consume(A, x) == [A EXCEPT !.e[x].n = @ + 1]
Push(A, o) == [e |-> Put(A.e, o.x, [pat |-> o.a, min |-> o.min, max |-> o.max, n |-> 0]), ord |-> Append(A.ord, o.x)]
Erase(A, x) == [e |-> Drop(A.e, x), ord |-> SelectSeq(A.ord, LAMBDA y : y # x)]

\* an operation as a whole: << state, result >>
Do(A, o) ==
    CASE o.op = "C" -> LET r == Scan(A, o.a) IN << IF r.v = "ok" THEN Consume(A, r.ids[1]) ELSE A, r >>
      [] o.op = "X" -> << Push(A, o), Res("made", << >>) >>
      [] o.op = "D" -> << Erase(A, o.x), IF Satisfied(A.e[o.x]) THEN Res("gone", << >>) ELSE Res("unful", << o.x >>) >>

----------------------------------------------------------------------------
\* pend: thread -> its operation; done: thread -> its result, of those that took effect
Lin0 == { [A |-> A0, pend |-> << >>, done |-> << >>] }
LinInvoke(L, t, o) == { [c EXCEPT !.pend = Put(@, t, o)] : c \in L }
Possible(A, o) == o.op = "D" => o.x \in Live(A)
RECURSIVE Closure(_)
Closure(L) ==
    LET more == UNION { { LET d == Do(c.A, c.pend[t]) IN [A |-> d[1], pend |-> Drop(c.pend, t), done |-> Put(c.done, t, d[2])]
                          : t \in { u \in DOMAIN c.pend : Possible(c.A, c.pend[u]) } } : c \in L }
    IN IF more \subseteq L THEN L ELSE Closure(L \union more)
LinRespond(L, t, r) == { [c EXCEPT !.done = Drop(@, t)] : c \in { d \in Closure(L) : t \in DOMAIN d.done /\ d.done[t] = r } }

----------------------------------------------------------------------------
\* The library.  lock: its holder, -1 if free; at: where each thread is: idle, want (waits for the lock), scan (evaluates a matcher),
\* chosen (reports the match), fin (finalizer), miss (reports that nothing matches), unful (reports the unfulfilled expectation).
St0(threads) == [A |-> A0, lock |-> -1, at |-> [t \in threads |-> "idle"], op |-> [t \in threads |-> NoOp],
                 res |-> [t \in threads |-> Res("", << >>)], lin |-> Lin0, unsafe |-> FALSE, race |-> FALSE]

Others(st, t) == DOMAIN st.at \ {t}
\* A match is decided under the lock, but counted after it is released, and the expectation is not kept alive meanwhile:
\* who looks at the same expectation in between may be wrong.
EarlyScan(st, t) == \E u \in Others(st, t) : st.at[u] = "chosen" /\ st.res[u].ids[1] \in Live(st.A) /\ Accepts(st.A.e[st.res[u].ids[1]], st.op[t].a)
EarlyErase(st, t) == \E u \in Others(st, t) : st.at[u] \in {"chosen", "fin"} /\ st.res[u].ids[1] = st.op[t].x
\* somebody writes the count of an expectation while another one reads it
Racing(st) == \E t, u \in DOMAIN st.at : st.at[t] = "chosen" /\ st.at[u] = "scan"

Finish(st, t, r) == [st EXCEPT !.at[t] = "idle", !.op[t] = NoOp, !.res[t] = Res("", << >>), !.lin = LinRespond(@, t, r)]
Acquire(st, t) ==
    LET o == st.op[t] IN
    CASE o.op = "C" -> IF st.A.ord = << >> THEN [st EXCEPT !.at[t] = "miss", !.res[t] = Res("none", << >>)]
                       ELSE [st EXCEPT !.at[t] = "scan", !.lock = t, !.unsafe = @ \/ EarlyScan(st, t)]
      [] o.op = "X" -> Finish([st EXCEPT !.A = Push(@, o)], t, Res("made", << >>))
      [] o.op = "D" -> LET s == [st EXCEPT !.A = Erase(@, o.x), !.unsafe = @ \/ EarlyErase(st, t)] IN
                       IF Satisfied(st.A.e[o.x]) THEN Finish(s, t, Res("gone", << >>)) ELSE [s EXCEPT !.at[t] = "unful", !.lock = t]
Waiting(st) == { t \in DOMAIN st.at : st.at[t] = "want" }
\* the lock is free again: who waits gets it (at most one thread waits)
Release(st) ==
    LET s == [st EXCEPT !.lock = -1] IN
    IF Waiting(s) = {} THEN s ELSE Acquire(s, CHOOSE t \in Waiting(s) : TRUE)

Begin(st, t, o) ==
    LET s == [st EXCEPT !.op[t] = o, !.lin = LinInvoke(@, t, o)] IN
    IF s.lock = -1 THEN Acquire(s, t) ELSE [s EXCEPT !.at[t] = "want"]
\* a thread goes on from the user code it is in
Proceed(st, t) ==
    CASE st.at[t] = "scan" -> LET r == Scan(st.A, st.op[t].a) IN
                              Release([st EXCEPT !.at[t] = IF r.v = "ok" THEN "chosen" ELSE "miss", !.res[t] = r])
      [] st.at[t] = "chosen" -> LET x == st.res[t].ids[1] IN
                                [st EXCEPT !.at[t] = "fin", !.A = IF x \in Live(@) THEN Consume(@, x) ELSE @]
      [] st.at[t] \in {"fin", "miss"} -> Finish(st, t, st.res[t])
      [] st.at[t] = "unful" -> Release(Finish(st, t, Res("unful", << st.op[t].x >>)))
=============================================================================
