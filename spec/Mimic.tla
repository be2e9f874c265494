------------------------------- MODULE Mimic -------------------------------
(***************************************************************************)
(* Operational specification of the mimic++ expectation engine: mocks with *)
(* overloads, expectations with requirements, times ranges and sequence    *)
(* memberships, calls, retirement.  All operators are pure functions on a  *)
(* state record, so that the exhaustive model (MCMimic) and the trace      *)
(* validation (TraceMimic) share one source of truth.                      *)
(*                                                                         *)
(* S.ex   sequence of expectations; the index is the creation number (uid) *)
(* S.sq   sequence of sequences; the index is the creation number (sid)    *)
(* S.mk   mock slot -> [u: identity of the registry set, kind]; u = 0: none*)
(* S.own  owner slot -> uid; 0: none                                       *)
(* S.ss   sequence-object slot -> sid; 0: none                             *)
(* S.nm   number of mocks created so far                                   *)
(* S.rep, S.thr  installed reporter, whether it throws on unfulfilled      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INTMAX == 2147483647

Slots == 0 .. 40
OwnerSlots == 0 .. 420

Empty == [ ex  |-> << >>, sq |-> << >>,
           mk  |-> [i \in Slots |-> [u |-> 0, kind |-> 0]],
           own |-> [i \in OwnerSlots |-> 0],
           ss  |-> [i \in Slots |-> 0],
           nm  |-> 0, rep |-> 1, thr |-> FALSE ]

Range(s) == { s[i] : i \in DOMAIN s }
MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y

----------------------------------------------------------------------------
(* Mock kinds and C++ overload resolution.                                 *)
(* cat: 1 lvalue, 2 rvalue, 3 any.  cst: 1 mutable, 2 const.               *)

O(ar, cat, cst) == [ar |-> ar, cat |-> cat, cst |-> cst]

Overloads(kind) ==
    CASE kind = 0  -> { O(1,3,1) }
      [] kind = 1  -> { O(1,1,1), O(1,1,2), O(1,2,1), O(1,2,2) }
      [] kind = 2  -> { O(1,3,1), O(1,3,2) }
      [] kind = 3  -> { O(1,3,1), O(2,3,1), O(3,3,1) }
      [] kind = 4  -> { O(1,3,1) }
      [] kind = 5  -> { O(2,3,1) }
      [] kind = 6  -> { O(1,1,1), O(1,2,1) }
      [] kind = 7  -> { O(1,3,2), O(2,3,1), O(2,3,2) }
      [] kind = 8  -> { O(1,3,1), O(1,3,2) }
      [] kind = 9  -> { O(1,1,1), O(1,1,2), O(1,2,1), O(1,2,2) }
      [] kind = 10 -> { O(1,1,2), O(1,2,1) }
      [] kind = 11 -> { O(1,3,1), O(2,3,1) }
      [] kind = 12 -> { O(0,3,1) }

IsVoidKind(kind) == kind = 4

\* expr: 0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue
Viable(o, expr) ==
    LET isC == expr \in {1, 3}
        isR == expr \in {2, 3}
    IN /\ (o.cst = 1 => ~isC)
       /\ CASE o.cat = 3 -> TRUE
            [] o.cat = 2 -> isR
            [] o.cat = 1 -> o.cst = 2 \/ ~isR

\* rvalue-qualified overloads are preferred for rvalues, then mutable ones
Resolve(kind, expr, ar) ==
    LET V == { o \in Overloads(kind) : o.ar = ar /\ Viable(o, expr) }
        R == { o \in V : o.cat = 2 }
        V2 == IF R # {} THEN R ELSE V
        M == { o \in V2 : o.cst = 1 }
        V3 == IF M # {} THEN M ELSE V2
    IN CHOOSE o \in V3 : TRUE

----------------------------------------------------------------------------
(* Requirements.                                                           *)

Atom(t, v, x) ==   \* "T", "F" or "X" (throws)
    CASE t = 0 -> "T"
      [] t = 1 -> IF x = v THEN "T" ELSE "F"
      [] t = 2 -> IF x # v THEN "T" ELSE "F"
      [] t = 3 -> IF x < v THEN "T" ELSE "F"
      [] t = 4 -> IF x <= v THEN "T" ELSE "F"
      [] t = 5 -> IF x > v THEN "T" ELSE "F"
      [] t = 6 -> IF x >= v THEN "T" ELSE "F"
      [] t = 7 -> IF x = v THEN "X" ELSE "T"
      [] t = 8 -> "X"
      [] OTHER -> "F"

RArg(p, neg, a) == [k |-> "arg", p |-> p, neg |-> neg, t |-> a[1], v |-> a[2], id |-> a[3]]
RTag(a)         == [k |-> "tag", p |-> 1, neg |-> FALSE, t |-> a[1], v |-> a[2], id |-> a[3]]
RCat(c)         == [k |-> "cat", p |-> c, neg |-> FALSE, t |-> 0, v |-> 0, id |-> 0]
RCst(c)         == [k |-> "cst", p |-> c, neg |-> FALSE, t |-> 0, v |-> 0, id |-> 0]
\* a side effect; p: how arguments are selected
RSide(n, how)   == [k |-> "side", p |-> n, neg |-> FALSE, t |-> 0, v |-> how, id |-> 0]

ArgAtom(argk, a) ==   \* direct values compare equal, `_` accepts all, ne, !lt
    CASE argk = 0 -> a
      [] argk = 1 -> <<1, a[2], a[3]>>
      [] argk = 2 -> <<0, 0, a[3]>>
      [] argk = 3 -> <<2, a[2], a[3]>>
      [] argk = 4 -> <<6, a[2], a[3]>>

PolShape(pol, pa) ==
    CASE pol = 0 -> << RTag(pa[1]) >>
      [] pol = 1 -> << RTag(pa[1]), RSide(1, 0) >>
      [] pol = 2 -> << RTag(pa[1]), RSide(1, 0), RSide(2, 1), RSide(3, 0) >>
      [] pol = 3 -> << RArg(1, FALSE, pa[2]), RTag(pa[1]), RArg(1, TRUE, pa[3]) >>
      [] pol = 4 -> << RSide(1, 9), RArg(1, FALSE, pa[2]), RTag(pa[1]), RSide(2, 11) >>
      [] pol = 5 -> << RArg(2, FALSE, pa[2]), RTag(pa[1]), RArg(1, TRUE, pa[3]),
                       RSide(1, 21), RSide(2, 2), RSide(3, 9) >>
      [] pol = 9 -> << >>

PolList(o, argk, aa, pol, pa) ==
    [ i \in 1 .. o.ar |-> RArg(i, FALSE, ArgAtom(argk, aa[i])) ]
    \o << RCat(o.cat), RCst(o.cst) >>
    \o PolShape(pol, pa)

\* a call: [mu, ar, cat, cst, args]
EvalReq(r, c) ==
    CASE r.k = "arg" -> Atom(r.t, r.v, IF r.neg THEN -(c.args[r.p]) ELSE c.args[r.p])
      [] r.k = "tag" -> Atom(r.t, r.v, IF c.ar = 0 THEN 0 ELSE c.args[1])
      [] r.k = "cat" -> IF c.cat = r.p THEN "T" ELSE "F"
      [] r.k = "cst" -> IF c.cst = r.p THEN "T" ELSE "F"
      [] OTHER -> "T"

\* all requirements are evaluated; the first throwing one aborts the evaluation
Throws(e, c)    == \E i \in DOMAIN e.pol : EvalReq(e.pol[i], c) = "X"
ThrownBy(e, c)  == LET i == MinOf({ j \in DOMAIN e.pol : EvalReq(e.pol[j], c) = "X" }) IN e.pol[i].id
Accepts(e, c)   == \A i \in DOMAIN e.pol : EvalReq(e.pol[i], c) = "T"
VerdictVec(e, c) == [ i \in DOMAIN e.pol |-> IF EvalReq(e.pol[i], c) = "T" THEN 1 ELSE 0 ]

----------------------------------------------------------------------------
(* Times ranges.                                                           *)

TimesOf(tk, ta, tb) ==
    LET r(a, b) == [ok |-> a >= 0 /\ b >= 0 /\ b >= a, mn |-> a, mx |-> b]
    IN CASE tk = 0 -> r(1, 1)
         [] tk = 1 -> r(ta, tb)
         [] tk = 2 -> r(ta, ta)
         [] tk = 3 -> r(ta, INTMAX)
         [] tk = 4 -> r(0, ta)
         [] tk = 5 -> r(1, 1)
         [] tk = 6 -> r(2, 2)

CountSat(e)  == e.mn <= e.n /\ e.n <= e.mx
Sat(e)       == CountSat(e) /\ e.psat
Saturated(e) == e.n = e.mx

----------------------------------------------------------------------------
(* Sequences: 0 unsatisfied, 1 satisfied, 2 saturated; positions from 1.   *)
(* cur is the position of the last matched element (1 initially).          *)

Consumable(q, i) ==
    /\ q.cur <= i
    /\ \A j \in q.cur .. (i - 1) : q.st[j] # 0
    /\ q.st[i] # 2

Priority(q, i) == IF q.lazy THEN INTMAX - (i - q.cur) ELSE i - q.cur

Blocked(S, e)  == { e.seqs[j][1] : j \in { k \in DOMAIN e.seqs : ~Consumable(S.sq[e.seqs[k][1]], e.seqs[k][2]) } }
Usable(S, e)   == ~Saturated(e) /\ Blocked(S, e) = {}

\* control state as it appears in reports
Control(S, e) == IF Saturated(e) THEN "s" ELSE IF Blocked(S, e) # {} THEN "i" ELSE "a"
Ratings(S, e) ==
    IF Saturated(e) THEN {}
    ELSE { <<e.seqs[j][1], Priority(S.sq[e.seqs[j][1]], e.seqs[j][2])>> :
             j \in { k \in DOMAIN e.seqs : Consumable(S.sq[e.seqs[k][1]], e.seqs[k][2]) } }
SeqIds(e) == { e.seqs[j][1] : j \in DOMAIN e.seqs }

\* the newer candidate a yields to the older candidate b
Yields(S, a, b) ==
    /\ SeqIds(a) # {}
    /\ SeqIds(a) \subseteq SeqIds(b)
    /\ LET pr(e, s) == (CHOOSE r \in Ratings(S, e) : r[1] = s)[2]
           less == { s \in SeqIds(a) : pr(a, s) < pr(b, s) }
       IN 2 * Cardinality(less) > Cardinality(SeqIds(a))

RECURSIVE Fold(_, _, _)
Fold(S, best, rest) ==      \* rest: set of older candidates not yet inspected
    IF rest = {} THEN best
    ELSE LET u == MaxOf(rest)
         IN Fold(S, IF Yields(S, S.ex[best], S.ex[u]) THEN u ELSE best, rest \ {u})

Best(S, F) == LET m == MaxOf(F) IN Fold(S, m, F \ {m})

----------------------------------------------------------------------------
(* Calls.                                                                  *)

MkCall(S, m, expr, args) ==
    LET k == S.mk[m].kind
        o == Resolve(k, expr, Len(args))
    IN [mu |-> S.mk[m].u, ar |-> o.ar, cat |-> o.cat, cst |-> o.cst, args |-> args, kind |-> k]

\* the live expectations registered for the called signature
Registered(S, c) == { u \in DOMAIN S.ex : S.ex[u].alive /\ S.ex[u].mu = c.mu /\ S.ex[u].ar = c.ar }
Throwing(S, c)   == { u \in Registered(S, c) : Throws(S.ex[u], c) }
Accepting(S, c)  == { u \in Registered(S, c) : Accepts(S.ex[u], c) }
Full(S, c)       == { u \in Accepting(S, c) : Usable(S, S.ex[u]) }
Inapp(S, c)      == Accepting(S, c) \ Full(S, c)
Rejecting(S, c)  == Registered(S, c) \ (Accepting(S, c) \union Throwing(S, c))

Verdict(S, c) ==
    IF Full(S, c) # {} THEN "full" ELSE IF Inapp(S, c) # {} THEN "inapp" ELSE "none"

\* the effect of the expectation u handling a call
NewState(old, n, mn, mx) == IF n = mn THEN 1 ELSE IF n = mx THEN 2 ELSE old

Consume(S, u) ==
    LET e == S.ex[u]
        n1 == e.n + 1
        upd(s) == LET i == e.seqs[CHOOSE j \in DOMAIN e.seqs : e.seqs[j][1] = s][2]
                  IN [S.sq[s] EXCEPT !.cur = i, !.st[i] = NewState(@, n1, e.mn, e.mx)]
    IN [S EXCEPT !.ex[u].n = n1,
                 !.sq = [s \in DOMAIN S.sq |-> IF s \in SeqIds(e) THEN upd(s) ELSE S.sq[s]]]

----------------------------------------------------------------------------
(* Creation.                                                               *)

\* d: [x, m, expr, ar, argk, aa, pol, pa, psat, fin, sfx, tk, ta, tb, seqs (slots)]
SidsOf(S, slots) == [ i \in DOMAIN slots |-> S.ss[slots[i]] ]
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

ExpValid(S, d) == TimesOf(d.tk, d.ta, d.tb).ok /\ Distinct(SidsOf(S, d.seqs))

MkExp(S, d) ==
    LET o == Resolve(S.mk[d.m].kind, d.expr, d.ar)
        tm == TimesOf(d.tk, d.ta, d.tb)
        sids == SidsOf(S, d.seqs)
    IN [ alive |-> TRUE, mu |-> S.mk[d.m].u, ar |-> o.ar, cat |-> o.cat, cst |-> o.cst,
         pol |-> PolList(o, d.argk, d.aa, d.pol, d.pa),
         argk |-> d.argk, psat |-> d.psat, mn |-> tm.mn, mx |-> tm.mx, n |-> 0,
         seqs |-> [ i \in DOMAIN sids |-> <<sids[i], Len(S.sq[sids[i]].st) + 1>> ],
         fin |-> d.fin, sfx |-> d.sfx, void |-> IsVoidKind(S.mk[d.m].kind) ]

AddExp(S, d) ==
    LET e == MkExp(S, d)
        u == Len(S.ex) + 1
        st0 == IF e.mn = 0 THEN 1 ELSE IF e.mx = 0 THEN 2 ELSE 0
    IN [S EXCEPT !.ex = Append(@, e), !.own[d.x] = u,
                 !.sq = [s \in DOMAIN S.sq |->
                           IF s \in SeqIds(e) THEN [S.sq[s] EXCEPT !.st = Append(@, st0)] ELSE S.sq[s]]]

AddMock(S, m, kind) == [S EXCEPT !.nm = @ + 1, !.mk[m] = [u |-> S.nm + 1, kind |-> kind]]
DropMock(S, m)      == [S EXCEPT !.mk[m] = [u |-> 0, kind |-> 0]]
MoveMock(S, m, m2)  == [S EXCEPT !.mk[m2] = S.mk[m], !.mk[m] = [u |-> 0, kind |-> 0]]

SwapMocks(S, m, m2) == [S EXCEPT !.mk[m] = S.mk[m2], !.mk[m2] = S.mk[m]]

AddSeq(S, s, lazy) ==
    [S EXCEPT !.sq = Append(@, [lazy |-> lazy, cur |-> 1, st |-> << >>, obj |-> TRUE]),
              !.ss[s] = Len(S.sq) + 1]

----------------------------------------------------------------------------
(* Retirement.  A sequence ends with its last holder.                      *)

Holders(S, sid) == { u \in DOMAIN S.ex : S.ex[u].alive /\ sid \in SeqIds(S.ex[u]) }
Ended(S, sid)   == ~S.sq[sid].obj /\ Holders(S, sid) = {}
SeqError(q)     == \E i \in DOMAIN q.st : i >= q.cur /\ q.st[i] = 0
SeqErrorNums(q) == << MinOf({ i \in DOMAIN q.st : i >= q.cur /\ q.st[i] = 0 }) - 1, Len(q.st) >>

DropObj(S, s)  == [S EXCEPT !.sq[S.ss[s]].obj = FALSE, !.ss[s] = 0]
Retire(S, u)   == [S EXCEPT !.ex[u].alive = FALSE]

\* sequences that ended between S and T
EndedNow(S, T) == { sid \in DOMAIN T.sq : Ended(T, sid) /\ ~Ended(S, sid) }
=============================================================================
