----------------------------- MODULE TraceMimic -----------------------------
(***************************************************************************)
(* Validates event traces recorded from the real library against Mimic.    *)
(* The trace is deterministic: one step per line.  The abstract state      *)
(* follows the implementation's observed choices; every property is an     *)
(* independent predicate evaluated at each step.  A violated property is   *)
(* printed as  << "VIOL", property, script, line, reason >>.               *)
(* After a divergence that makes the states of model and implementation    *)
(* incomparable, the rest of that script is skipped.                       *)
(***************************************************************************)
EXTENDS Mimic, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES S, stk, l, skip, script, ncalls

vars == << S, stk, l, skip, script, ncalls >>

Init == S = Empty /\ stk = << >> /\ l = 1 /\ skip = FALSE /\ script = 0 /\ ncalls = 0

----------------------------------------------------------------------------
\* a violation: property and reason
V(p, why) == { << p, why >> }
Chk(ok, p, why) == IF ok THEN {} ELSE V(p, why)
ChkAll(ok, ps, why) == IF ok THEN {} ELSE { << p, why >> : p \in ps }

Report(bad, ev) ==
    \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)

Owners(T) == { T.own[x] : x \in OwnerSlots } \ {0}

\* -- probes after every operation ------------------------------------------
SatBad(T, ev) ==
    UNION { LET p == ev.sat[i] u == p[1] IN
              IF u \in DOMAIN T.ex
              THEN Chk(p[2] = (IF Sat(T.ex[u]) THEN 1 ELSE 0), "C02", "is_satisfied")
                   \union Chk(p[3] = u % 8, "C20", "from() location")
                   \union Chk(T.ex[u].alive, "C04", "owner of a dead expectation")
              ELSE V("C04", "unknown owner")
            : i \in DOMAIN ev.sat }
    \union Chk({ ev.sat[i][1] : i \in DOMAIN ev.sat } = Owners(T), "C04", "owners differ")

\* -- retirement reports ----------------------------------------------------
Verbal(n) == CASE n = 0 -> "never" [] n = 1 -> "once" [] n = 2 -> "twice" [] OTHER -> ToString(n) \o " times"

TimesText(n, mn, mx) ==
    IF n = mx THEN "already saturated (matched " \o Verbal(n) \o ")"
    ELSE IF mn <= n THEN "accepts further matches (matched " \o ToString(n) \o " out of " \o ToString(mx) \o " times)"
    ELSE "matched " \o Verbal(n) \o " - "
         \o (IF mn < mx THEN "between " \o ToString(mn) \o " and " \o ToString(mx) \o " times"
             ELSE "exactly " \o Verbal(mx))
         \o " is expected"

ControlText(T, e) ==
    LET ns == Len(e.seqs)
        base == TimesText(e.n, e.mn, e.mx)
    IN CASE Control(T, e) = "s" -> base \o (IF ns > 0 THEN ",\n\tand is part of " \o ToString(ns) \o " sequence(s)." ELSE "")
         [] Control(T, e) = "a" -> base \o (IF ns > 0 THEN ",\n\tand is the current element of " \o ToString(ns) \o " sequence(s)." ELSE "")
         [] Control(T, e) = "i" -> base \o ",\n\tbut is not the current element of " \o ToString(Cardinality(Blocked(T, e)))
                                        \o " sequence(s) (" \o ToString(ns) \o " total)."

\* description of every policy, in order; "-" if it has none
CatName(c) == CASE c = 1 -> "lvalue" [] c = 2 -> "rvalue" [] c = 3 -> "any"
CstName(c) == CASE c = 1 -> "mutable" [] c = 2 -> "const"

ReqText(e, u, i) ==
    LET r == e.pol[i]
        pre == "expect: arg[" \o ToString(r.p - 1) \o "] "
    IN CASE r.k = "cat" -> "expect: from " \o CatName(r.p) \o " category overload"
         [] r.k = "cst" -> "expect: from " \o CstName(r.p) \o " qualified overload"
         [] r.k = "tag" -> "tag:" \o ToString(u)
         [] r.k = "side" -> "-"
         [] r.k = "arg" ->
              IF i <= e.ar /\ e.argk # 0
              THEN CASE e.argk = 1 -> pre \o "== " \o ToString(r.v)
                     [] e.argk = 2 -> pre \o "has no constraints"
                     [] e.argk = 3 -> pre \o "!= " \o ToString(r.v)
                     [] e.argk = 4 -> pre \o ">= " \o ToString(r.v)
              ELSE pre \o "dyn " \o ToString(r.t) \o " " \o ToString(r.v)

\* the wording of library matchers is not part of any property; compare the others
DescOk(e, u, d) ==
    /\ Len(d) = Len(e.pol)
    /\ \A i \in DOMAIN e.pol :
         (e.pol[i].k = "arg" /\ i <= e.ar /\ e.argk # 0) \/ d[i] = ReqText(e, u, i)

ExpReportBad(T, r) ==
    IF r.t \notin DOMAIN T.ex THEN V("C20", "unknown expectation")
    ELSE LET e == T.ex[r.t] IN
         Chk(r.ln = r.t % 8, "C20", "expectation location")
         \union Chk(r.ti = ControlText(T, e), "C20", "times text")
         \union Chk(DescOk(e, r.t, r.d), "C20", "descriptions")

Unfs(ev) == SelectSeq(ev.rr, LAMBDA r : r.k = "unf")
Errs(ev) == SelectSeq(ev.rr, LAMBDA r : r.k = "err")

Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })

\* T0: state in which the reports are evaluated; unf: expected uid or 0; errs: sequences that ended
RetireBad(T0, unf, ended, ev) ==
    LET us == Unfs(ev)
        es == Errs(ev)
        want == { sid \in ended : SeqError(T0.sq[sid]) }
        wantN == { SeqErrorNums(T0.sq[sid]) : sid \in want }
        gotN == [ i \in DOMAIN es |-> es[i].nums ]
    IN Chk(IF unf = 0 THEN us = << >> ELSE Len(us) = 1 /\ us[1].t = unf, "C04", "unfulfilled reports")
       \union Chk(Len(es) = Cardinality(want), "C08", "number of sequence errors")
       \union Chk(Range(gotN) = wantN, "C08", "content of sequence error")
       \union Chk(\A i \in DOMAIN ev.rr : ev.rr[i].rep = T0.rep, "C14", "reporter of retirement report")
       \union Chk(Len(us) = (IF unf = 0 THEN 0 ELSE 1) /\ Len(es) = Cardinality(want), "C14", "number of retirement reports")
       \union UNION { ExpReportBad(T0, us[i]) : i \in DOMAIN us }
       \union Chk(ev.stray = "", "C14", "stray reports")

NoRetire(T, ev) == RetireBad(T, 0, {}, ev)

\* an operation that only changes the model to T and reports nothing
Quiet(T, ev, extra) == << T, extra \union NoRetire(T, ev) \union SatBad(T, ev) >>

----------------------------------------------------------------------------
\* Each operator returns << new state, violations >>.

EvMock(ev)  == Quiet(AddMock(S, ev.m, ev.kind), ev, {})
EvDMock(ev) == Quiet(DropMock(S, ev.m), ev, Chk(ev.res = "ok", "C27", "mock destruction failed"))
EvMvMock(ev) == Quiet(MoveMock(S, ev.m, ev.m2), ev, Chk(ev.res = "ok", "C27", "mock move failed"))
EvSwMock(ev) == Quiet(SwapMocks(S, ev.m, ev.m2), ev, Chk(ev.res = "ok", "C27", "mock swap failed"))
EvSeq(ev)   == Quiet(AddSeq(S, ev.s, ev.kind = 0), ev, {})

EvDSeq(ev) ==
    LET T == DropObj(S, ev.s)
    IN << T, Chk(ev.res = "ok", "C08", "sequence destruction failed")
             \union RetireBad(S, 0, EndedNow(S, T), ev) \union SatBad(T, ev) >>

Desc(ev) ==
    [ x |-> ev.x, m |-> ev.m, expr |-> ev.expr, ar |-> ev.arity, argk |-> ev.argk, aa |-> ev.aa,
      pol |-> ev.pol, pa |-> ev.pa, psat |-> ev.psat = 1, fin |-> ev.fin, sfx |-> ev.sfx,
      tk |-> ev.tk, ta |-> ev.ta, tb |-> ev.tb, seqs |-> ev.seqs ]

EvExp(ev) ==
    LET d == Desc(ev)
        tok == TimesOf(d.tk, d.ta, d.tb).ok
        sok == Distinct(SidsOf(S, d.seqs))
        bad == CASE ev.res = "ok"      -> Chk(tok, "C26", "invalid range accepted")
                                          \union Chk(sok, "C07", "duplicate sequence accepted")
                 [] ev.res = "invalid" -> IF tok /\ sok
                                          THEN (IF d.tk = 0 THEN {} ELSE V("C26", "valid range rejected"))
                                               \union (IF Len(d.seqs) > 1 THEN V("C07", "distinct sequences rejected") ELSE {})
                                          ELSE {}
                 [] OTHER -> ChkAll(tok, {"C26"}, "wrong exception") \union ChkAll(sok, {"C07"}, "wrong exception")
                             \union (IF tok /\ sok THEN V("C01", "creation failed") ELSE {})
        T == IF ev.res = "ok" /\ tok /\ sok THEN AddExp(S, d) ELSE S
    IN Quiet(T, ev, bad)

EvPSat(ev) ==
    LET T == [S EXCEPT !.ex[S.own[ev.x]].psat = (ev.b = 1)] IN Quiet(T, ev, {})

EvDel(ev) ==
    LET u == S.own[ev.x]
    IN IF u = 0 THEN Quiet(S, ev, {})
       ELSE LET T == [Retire(S, u) EXCEPT !.own[ev.x] = 0]
                unf == IF Sat(S.ex[u]) THEN 0 ELSE u
            IN << T, RetireBad(S, unf, EndedNow(S, T), ev)
                     \union Chk(ev.res = (IF unf # 0 /\ S.thr /\ ev.u = 0 THEN "unf" ELSE "ok"), "C14", "exception of the reporter at destruction")
                     \union SatBad(T, ev) >>

EvMv(ev) ==
    LET u == S.own[ev.x]
        T == [S EXCEPT !.own[ev.y] = u, !.own[ev.x] = 0]
    IN Quiet(T, ev, Chk(ev.res = "ok", "C04", "move failed"))

EvMva(ev) ==
    LET u == S.own[ev.x]
        old == S.own[ev.y]
        T == [(IF old = 0 THEN S ELSE Retire(S, old)) EXCEPT !.own[ev.y] = u, !.own[ev.x] = 0]
        unf == IF old = 0 THEN 0 ELSE IF Sat(S.ex[old]) THEN 0 ELSE old
    IN IF ev.x = ev.y THEN Quiet(S, ev, Chk(ev.res = "ok", "C04", "self-assignment failed"))
       ELSE << T, RetireBad(S, unf, EndedNow(S, T), ev)
             \union Chk(ev.res = (IF unf # 0 /\ S.thr /\ ev.u = 0 THEN "unf" ELSE "ok"), "C14", "exception of the reporter at overwriting")
             \union SatBad(T, ev) >>

EvSwap(ev) ==
    LET T == [S EXCEPT !.own[ev.x] = S.own[ev.y], !.own[ev.y] = S.own[ev.x]]
    IN Quiet(T, ev, Chk(ev.res = "ok", "C04", "swap failed"))

EvRep(ev) == Quiet([S EXCEPT !.rep = ev.id, !.thr = (ev.thr = 1)], ev, {})
EvDef(ev) == Quiet(S, ev, {})

----------------------------------------------------------------------------
(* Verdicts.                                                               *)

RepIds(ev) == { ev.reps[i].t : i \in DOMAIN ev.reps }

MatchReportBad(T, c, r, kind) ==
    IF r.t \notin DOMAIN T.ex THEN V("C20", "unknown expectation in report")
    ELSE
    LET e == T.ex[r.t]
        seqd == e.seqs # << >>
        rset == Range(r.r)
    IN ChkAll(r.mn = e.mn /\ r.mx = e.mx, {"C02", "C26"}, "limits in report")
       \union Chk(r.ct = e.n, "C02", "count in report")
       \union Chk((r.c = "s") = (r.ct = r.mx), "C02", "saturation in report")
       \union Chk(r.mn = e.mn /\ r.mx = e.mx /\ r.ct = e.n /\ r.c = Control(T, e), "C20", "control state in report")
       \union (IF seqd /\ ~Saturated(e)
               THEN Chk(r.c = Control(T, e), "C05", "sequence applicability in report")
                    \union Chk(rset = Ratings(T, e) /\ Len(r.r) = Cardinality(rset), "C20", "ratings in report")
                    \union (IF Len(e.seqs) > 1
                            THEN Chk(r.c = Control(T, e) /\ { x[1] : x \in rset } = SeqIds(e) \ Blocked(T, e)
                                     /\ (r.c = "i" => Range(r.b) = Blocked(T, e)), "C07", "sequences in report")
                            ELSE {})
               ELSE {})
       \union Chk(CASE Control(T, e) = "s" -> Range(r.b) = SeqIds(e) /\ Len(r.b) = Len(e.seqs)
                    [] Control(T, e) = "i" -> Range(r.b) = Blocked(T, e) /\ Len(r.b) = Cardinality(Blocked(T, e))
                    [] OTHER -> r.b = << >>, "C20", "blocking sequences in report")
       \union Chk(r.ln = r.t % 8, "C20", "expectation location in report")
       \union Chk(DescOk(e, r.t, r.d), "C20", "descriptions in report")
       \union ChkAll(Throws(e, c) \/ r.m = VerdictVec(e, c), {"C10", "C20"}, "requirement verdicts in report")

CallReportBad(T, c, ev) ==
    LET k == ev.call IN
       ChkAll(k.cat = c.cat /\ k.cst = c.cst, {"C09", "C20"}, "category or constness of call report")
       \union Chk(k.a = [ i \in DOMAIN c.args |-> ToString(c.args[i]) ], "C20", "arguments of call report")
       \union Chk(k.ty = [ i \in DOMAIN c.args |-> "int" ], "C20", "argument types of call report")
       \union Chk(k.rt = (IF IsVoidKind(c.kind) THEN "void" ELSE "int"), "C20", "return type of call report")
       \union Chk(k.ln = ev.ln, "C20", "location of call report")

UnhBad(T, c, ev) ==
    LET want == Throwing(T, c)
        got == { ev.unh[i].t : i \in DOMAIN ev.unh }
        n == Len(ev.unh)
    IN ChkAll(got = want /\ n = Cardinality(want), {"C10", "C14"}, "unhandled exception reports")
       \union Chk(\A i \in DOMAIN ev.unh : ev.unh[i].t \in want => ev.unh[i].ex = ThrownBy(T.ex[ev.unh[i].t], c),
                  "C10", "exception of unhandled exception report")
       \union Chk(\A i \in DOMAIN ev.unh : ev.unh[i].rep = T.rep, "C14", "reporter of unhandled exception")
       \union UNION { ExpReportBad(T, ev.unh[i]) : i \in DOMAIN ev.unh }

\* expectations sharing a sequence with an expectation in several sequences
MultiTouched(T, e) ==
    \/ Len(e.seqs) > 1
    \/ \E u \in DOMAIN T.ex : Len(T.ex[u].seqs) > 1 /\ SeqIds(T.ex[u]) \intersect SeqIds(e) # {}

EvVerdict(ev) ==
    LET c == MkCall(S, ev.m, ev.expr, ev.args)
        F == Full(S, c)
        A == Inapp(S, c)
        N == Rejecting(S, c)
        X == Throwing(S, c)
        kind == ev.kind
        ids == RepIds(ev)
        want == Verdict(S, c)
        u == IF kind = "full" THEN ev.reps[1].t ELSE 0
        known == u \in DOMAIN S.ex
        e == S.ex[u]
        best == Best(S, F)
        seqF == \E f \in F : S.ex[f].seqs # << >>
        right == CASE want = "full"  -> kind = "full" /\ u = best
                   [] want = "inapp" -> kind = "inapp" /\ ids = A
                   [] want = "none"  -> kind = "none" /\ ids = N
        same == known /\ e.mu = c.mu /\ e.ar = c.ar /\ e.cat = c.cat /\ e.cst = c.cst
        nested == stk # << >>
        C01 == Chk(kind = want, "C01", "kind of verdict")
               \union (IF kind = "full" THEN Chk(u \in F, "C01", "handled by an unusable expectation") ELSE {})
               \union (IF kind = "inapp" THEN Chk(ids = A /\ Len(ev.reps) = Cardinality(A), "C01", "inapplicable expectations") ELSE {})
               \union (IF kind = "none" THEN Chk(ids = N /\ Len(ev.reps) = Cardinality(N), "C01", "unmatched expectations") ELSE {})
        C02 == (IF known THEN Chk(e.n < e.mx, "C02", "handled more often than allowed") ELSE {})
        C03 == IF F # {} /\ ~seqF THEN Chk(kind = "full" /\ u = MaxOf(F), "C03", "not the newest") ELSE {}
        C05 == (IF known THEN Chk(Blocked(S, e) = {}, "C05", "handled out of order") ELSE {})
               \union (IF F # {} /\ seqF THEN Chk(kind = "full" /\ \A f \in F : f \notin A, "C05", "sequenced expectation refused") ELSE {})
               \union (IF kind \in {"inapp"} THEN
                         Chk(\A i \in ids \intersect DOMAIN S.ex : S.ex[i].seqs # << >> /\ ~Saturated(S.ex[i]) => Blocked(S, S.ex[i]) # {},
                             "C05", "reported as blocked") ELSE {})
        C06 == IF F # {} /\ seqF /\ kind = "full" THEN Chk(u = best, "C06", "candidate selection") ELSE {}
        C07 == (IF known /\ MultiTouched(S, e) THEN Chk(Blocked(S, e) = {}, "C07", "handled although a sequence blocks") ELSE {})
               \union (IF \E f \in F : MultiTouched(S, S.ex[f]) THEN Chk(kind = "full", "C07", "refused although all sequences allow") ELSE {})
        C09 == (IF kind = "full" THEN Chk(same, "C09", "handled by another overload's expectation") ELSE {})
               \union (IF Cardinality(Overloads(c.kind)) > 1 THEN Chk(kind = want, "C09", "verdict of overload call") ELSE {})
               \union (IF kind = "full" THEN {}
                       ELSE Chk(\A i \in ids : i \in DOMAIN S.ex => S.ex[i].mu = c.mu /\ S.ex[i].ar = c.ar, "C09", "report lists other signature"))
        C10 == (IF known THEN Chk(same => Accepts(e, c), "C10", "handled although a requirement rejects") ELSE {})
               \union (IF kind = "none" THEN Chk(\A i \in ids \intersect DOMAIN S.ex : ~Accepts(S.ex[i], c), "C10", "rejected although all requirements accept") ELSE {})
               \union (IF kind = "inapp" THEN Chk(\A i \in ids \intersect DOMAIN S.ex : Accepts(S.ex[i], c), "C10", "listed as accepting") ELSE {})
               \union (IF X # {} THEN Chk(kind = want, "C10", "verdict with throwing requirement") ELSE {})
        C12 == IF nested THEN Chk(right, "C12", "verdict of nested call") ELSE {}
        C27 == Chk(kind # "full" \/ (known => e.mu = c.mu), "C27", "handled by another mock's expectation")
               \union (IF kind = "full" THEN {} ELSE
                       Chk(\A i \in ids : i \in DOMAIN S.ex => S.ex[i].mu = c.mu, "C27", "report lists another mock's expectation"))
        C04 == Chk(kind # "full" \/ (known => e.alive), "C04", "handled by a destroyed expectation")
               \union Chk(\A i \in ids : i \in DOMAIN S.ex => S.ex[i].alive, "C04", "destroyed expectation in report")
        C14 == Chk(kind # "silent", "C14", "no report for call")
               \union Chk(kind = "silent" \/ ev.rep = S.rep, "C14", "reporter of verdict")
        detail == IF kind = "silent" THEN {}
                  ELSE CallReportBad(S, c, ev) \union UNION { MatchReportBad(S, c, ev.reps[i], kind) : i \in DOMAIN ev.reps }
        bad == C01 \union C02 \union C03 \union C04 \union C05 \union C06 \union C07 \union C09 \union C10
               \union C12 \union C14 \union C27 \union UnhBad(S, c, ev) \union detail
               \union (IF right THEN {} ELSE V("CORE", "verdict"))
        T == IF kind = "full" /\ right THEN Consume(S, u) ELSE S
    IN [ T |-> T, bad |-> bad, hard |-> ~right,
         fr |-> [c |-> c, kind |-> kind, u |-> u] ]

\* expected side effects of a handled call
SideArgs(how, args) ==
    CASE how = 0  -> << >>
      [] how = 1  -> << args[1] >>
      [] how = 2  -> << args[2] >>
      [] how = 9  -> args
      [] how = 11 -> << args[1], args[1] >>
      [] how = 21 -> << args[2], args[1] >>

EffLog(e, u, c) ==
    LET P == SelectSeq(e.pol, LAMBDA r : r.k \in {"tag", "side"})
        one(r) == IF r.k = "tag" THEN << "s", u, 0, << >> >> ELSE << "s", u, r.p, SideArgs(r.v, c.args) >>
    IN [ i \in DOMAIN P |-> one(P[i]) ]

FinLog(e, u, c) ==
    CASE e.fin = 2 -> << << "f", u, 0, << >> >> >>
      [] e.fin = 4 -> << << "f", u, 0, << c.args[1] >> >> >>
      [] e.fin = 5 -> << << "f", u, 0, c.args >> >>
      [] OTHER -> << >>

ResultOk(e, u, c, ev) ==
    IF e.fin = 1 THEN ev.k = "exc" /\ ev.v = u
    ELSE /\ ev.k = "val"
         /\ ev.v = (IF e.void THEN 0 ELSE IF e.fin = 3 THEN c.args[1] ELSE u)

EvRet(ev) ==
    LET fr == stk[Len(stk)]
        c == fr.c
        sides == SelectSeq(ev.log, LAMBDA r : r[1] = "s")
        fins == SelectSeq(ev.log, LAMBDA r : r[1] = "f")
        bad == IF fr.kind = "full"
               THEN LET e == S.ex[fr.u] IN
                    Chk(ResultOk(e, fr.u, c, ev), "C11", "result of handled call")
                    \union Chk(fins = FinLog(e, fr.u, c), "C11", "finalizer evaluations")
                    \union Chk(sides = EffLog(e, fr.u, c), "C12", "side effects")
                    \union Chk(ev.log = EffLog(e, fr.u, c) \o FinLog(e, fr.u, c), "C12", "order of side effects and finalizer")
                    \union Chk(ev.k \in {"val", "exc"}, "C01", "outcome of handled call")
               ELSE Chk(ev.k \notin {"val", "exc"}, "C01", "failed call returns")
                    \union Chk(ev.k = "unm" /\ ev.v = S.rep /\ ev.v2 = 1, "C14", "exception of failed call")
                    \union ChkAll(ev.log = << >>, {"C28", "C12", "C11"}, "effects of failed call")
    IN Quiet(S, ev, bad \union Chk(ev.nv = 1, "C14", "number of verdict reports"))

----------------------------------------------------------------------------
(* Bursts: many equal calls in the absence of sequences and side effects.  *)
\* the run-length encoded results of n equal calls, and the state afterwards
KeyOf(T, u, c) ==
    LET e == T.ex[u] IN
    IF e.fin = 1 THEN << "exc", u >>
    ELSE << "val", IF e.void THEN 0 ELSE IF e.fin = 3 THEN c.args[1] ELSE u >>

Push(runs, key, cnt) ==
    IF runs # << >> /\ runs[Len(runs)][1] = key[1] /\ runs[Len(runs)][2] = key[2]
    THEN [runs EXCEPT ![Len(runs)][3] = @ + cnt]
    ELSE Append(runs, << key[1], key[2], cnt >>)

RECURSIVE BurstRun(_, _, _, _)
BurstRun(T, c, n, runs) ==
    IF n = 0 THEN << T, runs >>
    ELSE LET F == Full(T, c) IN
         IF F = {} THEN << T, Push(runs, << "unm", T.rep >>, n) >>
         ELSE LET u == MaxOf(F)
                  cap == T.ex[u].mx - T.ex[u].n
                  k == IF cap < n THEN cap ELSE n
              IN BurstRun([T EXCEPT !.ex[u].n = @ + k], c, n - k, Push(runs, KeyOf(T, u, c), k))

BurstBad(want, got) ==
    IF want = got THEN {}
    ELSE LET diff == { i \in DOMAIN want \intersect DOMAIN got : want[i] # got[i] }
             i == IF diff = {} THEN 0 ELSE MinOf(diff)
         IN { << p, "burst" >> : p \in
                {"CORE", "C01"}
                \union (IF i # 0 /\ (want[i][1] = "unm" \/ got[i][1] = "unm" \/ (want[i][1] = got[i][1] /\ want[i][2] = got[i][2]))
                        THEN {"C02"} ELSE {})
                \union (IF i # 0 /\ want[i][1] # "unm" THEN {"C03"} ELSE {}) }

EvBurst(ev) ==
    LET c == MkCall(S, ev.m, ev.expr, ev.args)
        R == BurstRun(S, c, ev.n, << >>)
    IN << R[1], BurstBad(R[2], ev.runs) \union NoRetire(R[1], ev) \union SatBad(R[1], ev) >>

----------------------------------------------------------------------------
SimpleEvents == {"mock", "dmock", "mvmock", "mamock", "swmock", "seq", "dseq", "exp", "psat", "del", "mv", "mva", "swap", "rep", "def", "burst"}

Simple(ev) ==
    CASE ev.op = "mock" -> EvMock(ev)
      [] ev.op = "dmock" -> EvDMock(ev)
      [] ev.op \in {"mvmock", "mamock"} -> EvMvMock(ev)
      [] ev.op = "swmock" -> EvSwMock(ev)
      [] ev.op = "seq" -> EvSeq(ev)
      [] ev.op = "dseq" -> EvDSeq(ev)
      [] ev.op = "exp" -> EvExp(ev)
      [] ev.op = "psat" -> EvPSat(ev)
      [] ev.op = "del" -> EvDel(ev)
      [] ev.op = "mv" -> EvMv(ev)
      [] ev.op = "mva" -> EvMva(ev)
      [] ev.op = "swap" -> EvSwap(ev)
      [] ev.op = "rep" -> EvRep(ev)
      [] ev.op = "def" -> EvDef(ev)
      [] ev.op = "burst" -> EvBurst(ev)

\* violations after which model and implementation cannot be compared any more
HardIn(bad) == \E b \in bad :
    \/ b[1] = "CORE"
    \/ b[1] \in {"C26", "C07"} /\ b[2] \in {"invalid range accepted", "duplicate sequence accepted", "valid range rejected", "distinct sequences rejected", "wrong exception"}
    \/ b[2] \in {"creation failed", "owners differ", "unknown owner"}

StepStart(ev) ==
    /\ ev.op = "start"
    /\ S' = Empty /\ stk' = << >> /\ skip' = FALSE /\ script' = ev.id
    /\ UNCHANGED ncalls

StepSkip(ev) == ev.op # "start" /\ (skip \/ ev.op = "end") /\ UNCHANGED << S, stk, skip, script, ncalls >>

StepSimple(ev) ==
    /\ ~skip /\ ev.op \in SimpleEvents
    /\ LET r == Simple(ev) IN
         /\ Report(r[2], ev)
         /\ S' = r[1]
         /\ skip' = HardIn(r[2])
    /\ UNCHANGED << stk, script, ncalls >>

StepVerdict(ev) ==
    /\ ~skip /\ ev.op = "verdict"
    /\ LET r == EvVerdict(ev) IN
         /\ Report(r.bad, ev)
         /\ S' = r.T
         /\ stk' = Append(stk, r.fr)
         /\ skip' = r.hard
    /\ ncalls' = ncalls + 1
    /\ UNCHANGED script

StepRet(ev) ==
    /\ ~skip /\ ev.op = "ret"
    /\ LET r == EvRet(ev) IN
         /\ Report(r[2], ev)
         /\ S' = r[1]
         /\ skip' = HardIn(r[2])
    /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
    /\ UNCHANGED << script, ncalls >>

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
         StepStart(ev) \/ StepSkip(ev) \/ StepSimple(ev) \/ StepVerdict(ev) \/ StepRet(ev)

Spec == Init /\ [][Next]_vars

\* the whole trace was consumed
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
