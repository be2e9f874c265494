------------------------------ MODULE TestCase ------------------------------
(***************************************************************************)
(* A test case of a test framework: expectations of one mock, calls, ends  *)
(* of expectations and sequences, failing assertions and exceptions of the *)
(* user.  Composes the engine (Mimic) with what the reporters do with its  *)
(* reports (Reporter) and with the unwinding of the test body.             *)
(*                                                                         *)
(* U.S     engine state, U.xl  uid -> source location                      *)
(* U.rep   installed reporter (as in Reporter; 5 under every framework)    *)
(* U.over  the test body has been left by an exception                     *)
(* U.fails number of failures, U.own, whether the user failed the test     *)
(*                                                                         *)
(* Steps: X create, C call, H call in a handler, T call with a handler     *)
(* around it, U call in a destructor during unwinding, D E K Z the same    *)
(* for ending an expectation,                                              *)
(* W ends a sequence and an expectation during unwinding, Q ends a         *)
(* sequence, I installs a reporter, A failing assertion, F exception.      *)
(***************************************************************************)
EXTENDS Mimic, Reporter

XSlots == 0 .. 3
QSlots == 1 .. 2
U0 == [ S |-> AddSeq(AddSeq(AddMock(Empty, 1, 0), 1, TRUE), 2, TRUE), xl |-> << >>, rep |-> 1, over |-> FALSE, fails |-> 0, own |-> FALSE ]

----------------------------------------------------------------------------
(* Contents of reports.                                                    *)

AtomText(t, v) ==
    CASE t = 0 -> "has no constraints"
      [] t = 1 -> "== " \o ToString(v)
      [] t = 2 -> "!= " \o ToString(v)
      [] t = 3 -> "< " \o ToString(v)
      [] t = 5 -> "> " \o ToString(v)
      [] t = 7 -> "passes boom " \o ToString(v)

RText(r) == CASE r.k = "arg" -> "expect: arg[0] " \o AtomText(r.t, r.v)
              [] r.k = "cat" -> "expect: from " \o CatText(r.p) \o " category overload"
              [] r.k = "cst" -> "expect: from " \o CstText(r.p) \o " qualified overload"

Zeros(n) == [i \in 1..n |-> 0]
CtlOf(S, e) ==
    LET b == Cardinality(Blocked(S, e)) a == Len(e.seqs) - b IN
    CASE Control(S, e) = "s" -> [k |-> 3, mn |-> e.mn, mx |-> e.mx, n |-> e.n, rs |-> << >>, ts |-> Zeros(Len(e.seqs))]
      [] Control(S, e) = "i" -> [k |-> 2, mn |-> e.mn, mx |-> e.mx, n |-> e.n, rs |-> Zeros(a), ts |-> Zeros(b)]
      [] OTHER               -> [k |-> 1, mn |-> e.mn, mx |-> e.mx, n |-> e.n, rs |-> Zeros(a), ts |-> << >>]

NoText == << 0, "" >>
MatchOf(U, u, c) ==
    LET e == U.S.ex[u] v == VerdictVec(e, c) IN
    [loc |-> U.xl[u], fin |-> NoText, ctl |-> CtlOf(U.S, e), reqs |-> [i \in DOMAIN e.pol |-> << v[i], << 1, RText(e.pol[i]) >> >>]]
RECURSIVE Lines2Text(_)
Lines2Text(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o "\n" \o Lines2Text(Tail(ls))
ExpOf(U, u) ==
    LET e == U.S.ex[u] IN
    [loc |-> U.xl[u], fin |-> NoText, times |-> << 1, Lines2Text(ControlLines(CtlOf(U.S, e))) >>, reqs |-> [i \in DOMAIN e.pol |-> << 1, RText(e.pol[i]) >>]]
CallOf(c, loc, ty) == [ret |-> ty, loc |-> loc, cat |-> 3, cst |-> 1, args |-> << << ty, ToString(c.args[1]) >> >>]

NoCall == CallOf([args |-> << 0 >>], << 0, "", "", "", "" >>, "")
NoExp == [loc |-> << 0, "", "", "", "" >>, fin |-> NoText, times |-> NoText, reqs |-> << >>]
Ev(k, call, ms, ex, exc, msg) == [k |-> k, call |-> call, ms |-> ms, ex |-> ex, exc |-> exc, msg |-> msg]

\* newest first
RECURSIVE Newest(_)
Newest(X) == IF X = {} THEN << >> ELSE << MaxOf(X) >> \o Newest(X \ {MaxOf(X)})

----------------------------------------------------------------------------
(* The reports of a step, in order, each with whether it is made during    *)
(* unwinding; the state behind it; the result of a call.                   *)

CallStep(U, v, loc, ty) ==
    LET c == MkCall(U.S, 1, 0, << v >>)
        k == CallOf(c, loc, ty)
        un == [i \in DOMAIN Newest(Throwing(U.S, c)) |->
                 LET u == Newest(Throwing(U.S, c))[i] IN Ev(Unhandled, k, << >>, ExpOf(U, u), 1, "boom " \o ToString(ThrownBy(U.S.ex[u], c)))]
        ms(X) == Map(LAMBDA u : MatchOf(U, u, c), Newest(X))
        F == Full(U.S, c)
        b == Best(U.S, F)
    IN IF F # {} THEN [U |-> [U EXCEPT !.S = Consume(U.S, b)], evs |-> un \o << Ev(FullMatch, k, ms({b}), NoExp, 0, "") >>, res |-> U.S.ex[b].fin]
       ELSE [U |-> U, res |-> -1,
             evs |-> un \o << IF Inapp(U.S, c) # {} THEN Ev(InappMatch, k, ms(Inapp(U.S, c)), NoExp, 0, "")
                              ELSE Ev(NoMatch, k, ms(Rejecting(U.S, c)), NoExp, 0, "") >>]

ErrText(q) == LET n == SeqErrorNums(q) IN "Unfulfilled sequence. " \o ToString(n[1]) \o " out of " \o ToString(n[2]) \o " expectation(s) are satisfied."
RECURSIVE ErrEvs(_, _)
ErrEvs(S, X) == IF X = {} THEN << >> ELSE LET s == MinOf(X) IN
                (IF SeqError(S.sq[s]) THEN << Ev(Err, NoCall, << >>, NoExp, 0, ErrText(S.sq[s])) >> ELSE << >>) \o ErrEvs(S, X \ {s})

EndStep(U, x) ==
    LET u == U.S.own[x] IN
    IF u = 0 THEN [U |-> U, evs |-> << >>, res |-> -1]
    ELSE LET T == [Retire(U.S, u) EXCEPT !.own[x] = 0] IN
         [U |-> [U EXCEPT !.S = T], res |-> -1,
          evs |-> (IF Sat(U.S.ex[u]) THEN << >> ELSE << Ev(Unful, NoCall, << >>, ExpOf(U, u), 0, "") >>) \o ErrEvs(T, EndedNow(U.S, T))]

SeqStep(U, s) ==
    IF U.S.ss[s] = 0 THEN [U |-> U, evs |-> << >>, res |-> -1]
    ELSE LET T == DropObj(U.S, s) IN [U |-> [U EXCEPT !.S = T], res |-> -1, evs |-> ErrEvs(T, EndedNow(U.S, T))]

AddX(U, ev) ==
    LET d == [x |-> ev.x, m |-> 1, expr |-> 0, ar |-> 1, argk |-> 0, aa |-> << << ev.t, ev.v, ev.v >> >>, pol |-> 9, pa |-> << >>, psat |-> TRUE,
              fin |-> 100 + ev.x, sfx |-> << >>, tk |-> ev.tk, ta |-> ev.ta, tb |-> ev.tb, seqs |-> ev.seqs]
    IN [U EXCEPT !.S = AddExp(U.S, d), !.xl = Append(@, ev.loc)]

----------------------------------------------------------------------------
(* What becomes of reports.                                                *)

Ctx(unw) == IF unw THEN 1 ELSE 0
IsFail(e) == e.k \in {NoMatch, InappMatch, Unful, Err}
\* the first report that ends the step by an exception; the rest of a step is then done while unwinding
Raises(e, unw) == IsFail(e) /\ ~Dropped(e, Ctx(unw))

RECURSIVE Delivered(_, _)
Delivered(evs, unw) ==
    IF evs = << >> THEN << >>
    ELSE << << Head(evs), unw >> >> \o Delivered(Tail(evs), unw \/ Raises(Head(evs), unw))

Raised(ds) == \E i \in DOMAIN ds : Raises(ds[i][1], ds[i][2])
Raiser(ds) == ds[CHOOSE i \in DOMAIN ds : Raises(ds[i][1], ds[i][2])][1]
Fails(ds) == Cardinality({ i \in DOMAIN ds : Raises(ds[i][1], ds[i][2]) })

\* the effect of a step in the test body: mode "plain", "caught", "unwinding"
Took(r, mode) ==
    LET ds == Delivered(r.evs, mode = "unwinding") IN
    [U |-> [r.U EXCEPT !.over = mode = "plain" /\ Raised(ds), !.fails = @ + Fails(ds)], ds |-> ds, res |-> r.res]

\* both ends happen while unwinding
Both(U, x, s) ==
    LET a == SeqStep(U, s) b == EndStep(a.U, x) ds == Delivered(a.evs \o b.evs, TRUE) IN
    [U |-> [b.U EXCEPT !.fails = @ + Fails(ds)], ds |-> ds, res |-> -1]

\* one operation; loc and ty are taken from ev
Op(U, ev) ==
    LET quiet(V) == [U |-> V, ds |-> << >>, res |-> -1] IN
    CASE ev.op = "X" -> quiet(AddX(U, ev))
      [] ev.op \in {"C", "H"} -> Took(CallStep(U, ev.v, ev.loc, ev.ty), "plain")
      [] ev.op = "T" -> Took(CallStep(U, ev.v, ev.loc, ev.ty), "caught")
      [] ev.op = "U" -> Took(CallStep(U, ev.v, ev.loc, ev.ty), "unwinding")
      [] ev.op \in {"D", "E"} -> Took(EndStep(U, ev.x), "plain")
      [] ev.op = "K" -> Took(EndStep(U, ev.x), "caught")
      [] ev.op = "Z" -> Took(EndStep(U, ev.x), "unwinding")
      [] ev.op = "W" -> Both(U, ev.x, ev.s)
      [] ev.op = "Q" -> Took(SeqStep(U, ev.s), "plain")
      [] ev.op = "I" -> quiet([U EXCEPT !.rep = ev.k])
      [] ev.op \in {"A", "F"} -> quiet([U EXCEPT !.over = TRUE, !.own = TRUE])

\* the end of the test body: slots end in reverse order, the first failure makes the others happen while unwinding
RECURSIVE EndAll(_, _, _)
EndAll(U, todo, unw) ==
    IF todo = << >> THEN [U |-> U, ds |-> << >>]
    ELSE LET r == IF Head(todo)[1] = "x" THEN EndStep(U, Head(todo)[2]) ELSE SeqStep(U, Head(todo)[2])
             ds == Delivered(r.evs, unw)
             rest == EndAll([r.U EXCEPT !.fails = @ + Fails(ds)], Tail(todo), unw \/ Raised(ds))
         IN [U |-> rest.U, ds |-> ds \o rest.ds]
Finish(U) == EndAll(U, << <<"x", 3>>, <<"x", 2>>, <<"x", 1>>, <<"x", 0>>, <<"q", 2>>, <<"q", 1>> >>, U.over)

\* Known finding: a sequence that ends unfinished outside of unwinding raises an exception in a noexcept context
Terminates(ds) == \E i \in DOMAIN ds : ds[i][1].k = Err /\ ~ds[i][2]
=============================================================================
