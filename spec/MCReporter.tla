----------------------------- MODULE MCReporter -----------------------------
(***************************************************************************)
(* Events for the shipped reporters.  FAM selects the family:              *)
(*   outcome  every kind of report, reporter and unwinding context         *)
(*   times    every control state with small limits                        *)
(*   reqs     lists of requirements with and without a description         *)
(*   calls    calls with up to three arguments                             *)
(*   sim      random events (for -simulate)                                *)
(* The properties are stated on the lines of the rendered text.            *)
(***************************************************************************)
EXTENDS Reporter, Json, IOUtils

Fam == IOEnv.FAM
Wide == IOEnv.WIDE = "1"

\* contents are indices into the tables of the harness; 0: none
NStr == 17
NLoc == 5
NType == 5
INTMX == 2147483647

VARIABLES ev, n
vars == << ev, n >>

Call(r, l, ct, cs, as) == [ret |-> r, loc |-> l, cat |-> ct, cst |-> cs, args |-> as]
Ctl(k, mn, mx, c, nr, nt) == [k |-> k, mn |-> mn, mx |-> mx, n |-> c, nr |-> nr, nt |-> nt]
Match(l, f, c, rq) == [loc |-> l, fin |-> f, ctl |-> c, reqs |-> rq]
Exp(l, f, t, rq) == [loc |-> l, fin |-> f, times |-> t, reqs |-> rq]
E(rep, k, unw, c, ms, ex, exc, msg) == [rep |-> rep, k |-> k, unw |-> unw, call |-> c, ms |-> ms, ex |-> ex, exc |-> exc, msg |-> msg]

C0 == Call(1, 1, 1, 1, << << 1, 3 >> >>)
X0 == Exp(2, 0, 2, << 15 >>)
Failing == << 0, 16 >>
M0(k) == CASE k = NoMatch -> Match(2, 0, Ctl(1, 1, 1, 0, 0, 0), << << 1, 15 >>, Failing >>)
           [] k = InappMatch -> Match(2, 0, Ctl(3, 1, 1, 1, 0, 0), << << 1, 15 >> >>)
           [] OTHER -> Match(2, 0, Ctl(1, 1, 1, 0, 0, 0), << << 1, 15 >> >>)

Seqs(S, k) == UNION { [1..i -> S] : i \in 0..k }

\* states as they can occur
Ctls(k, big) ==
    { c \in [k : {k}, mn : 0..big, mx : 0..big, n : 0..big, nr : 0..2, nt : 0..2] :
        /\ c.mn <= c.mx /\ c.n <= c.mx
        /\ c.k = 1 => c.nt = 0 /\ c.n < c.mx
        /\ c.k = 2 => c.nt > 0 /\ c.n < c.mx
        /\ c.k = 3 => c.nr = 0 /\ c.n = c.mx }

Outcomes ==
    { E(r, k, u, c, [i \in 1..m |-> M0(k)], X0, x, 2) :
        r \in Reps, k \in Kinds, u \in Contexts, c \in {C0}, m \in IF Wide THEN 0..3 ELSE {0, 1, 2}, x \in 0..3 }
Times == { E(r, InappMatch, 0, C0, << Match(1, 0, c, << << 1, 15 >> >>) >>, X0, 0, 1) :
             r \in {1, 5}, c \in Ctls(2, IF Wide THEN 5 ELSE 4) \union Ctls(3, IF Wide THEN 5 ELSE 4)
                                 \union { Ctl(k, mn, INTMX, mn, nr, 1) : k \in {2}, mn \in {0, 1, 2, 3, 11}, nr \in {0, 2} }
                                 \union { Ctl(2, 1000000, INTMX, 999999, 0, 1), Ctl(3, 5, 100, 100, 0, 2) } }
ReqLists == Seqs({0, 1} \X {0, 14, 15, 16}, 3)
Reqs == { E(r, k, 0, C0, << Match(2, 0, M0(k).ctl, q), M0(k) >>, Exp(0, 3, 0, [i \in DOMAIN q |-> q[i][2]]), 0, 1) :
             r \in {1, 5}, k \in {NoMatch, InappMatch, FullMatch, Unful, Unhandled}, q \in ReqLists }
Calls == { E(r, k, 0, Call(t, l, ct, cs, as), << M0(k) >>, X0, 0, 2) :
             r \in {1}, k \in {NoMatch}, t \in 1..2, l \in 1..2, ct \in 1..3, cs \in 1..3,
             as \in Seqs({1, 3} \X {2, 4}, IF Wide THEN 3 ELSE 2) }
Admissible(e) ==
    LET ok(m) == LET pass == \A i \in DOMAIN m.reqs : m.reqs[i][1] = 1 IN
                 CASE e.k = NoMatch -> ~pass [] e.k = InappMatch -> pass /\ m.ctl.k # 1 [] e.k = FullMatch -> pass /\ m.ctl.k = 1 [] OTHER -> TRUE
    IN /\ \A i \in DOMAIN e.ms : ok(e.ms[i])
       /\ e.k = InappMatch => e.ms # << >>
       /\ e.k = FullMatch => Len(e.ms) = 1
       /\ e.k # Unhandled => e.exc = 0
       /\ Fam = "outcome" /\ e.k \notin {NoMatch, InappMatch, FullMatch} => Len(e.ms) = 1

Pick(S) == RandomElement(S)
RandList(mk(_), k) == LET m == Pick(0..k) IN [i \in 1..m |-> mk(i)]
RandCall(x) == Call(Pick(1..NType), Pick(1..NLoc), Pick(1..3), Pick(1..3), RandList(LAMBDA i : << Pick(1..NType), Pick(1..NStr) >>, 4))
RandReqs(ok) == RandList(LAMBDA i : << IF ok THEN 1 ELSE Pick(0..1), Pick(0..NStr) >>, 5)
RandMatch(k) ==
    Match(Pick(0..NLoc), Pick(0..NStr),
          Pick(CASE k = NoMatch -> Ctls(Pick(1..3), 3) [] k = InappMatch -> Ctls(Pick(2..3), 3) [] OTHER -> Ctls(1, 3)),
          IF k = NoMatch THEN Append(RandReqs(FALSE), << 0, Pick(0..NStr) >>) \o RandReqs(FALSE) ELSE RandReqs(TRUE))
RandExp(x) == Exp(Pick(0..NLoc), Pick(0..NStr), Pick(0..NStr), RandList(LAMBDA i : Pick(0..NStr), 5))
RandEvent(x) ==
    LET k == Pick(Kinds) IN
    E(Pick(Reps), k, Pick(Contexts), RandCall(x), IF k = NoMatch THEN RandList(LAMBDA i : RandMatch(k), 4) ELSE
        [i \in 1..(IF k = InappMatch THEN Pick(1..3) ELSE 1) |-> RandMatch(k)], RandExp(x), IF k = Unhandled THEN Pick(0..3) ELSE 0, Pick(1..NStr))

Events == CASE Fam = "outcome" -> Outcomes [] Fam = "times" -> Times [] Fam = "reqs" -> Reqs [] Fam = "calls" -> Calls

Init == n = 0 /\ IF Fam = "sim" THEN ev = RandEvent(n) ELSE ev \in { e \in Events : Admissible(e) }
Next == Fam = "sim" /\ n < 400 /\ n' = n + 1 /\ ev' = RandEvent(n')
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The event with concrete, distinguishable contents.                      *)

S(i) == "<" \o ToString(i) \o ">"
Opt(i) == IF i = 0 THEN << 0, "" >> ELSE << 1, S(i) >>
Loc(i) == IF i = 0 THEN << 0, "", "", "", "" >> ELSE << 1, "file" \o S(i), "1", "2", "fn" >>
ConcreteM(m) == [loc |-> Loc(m.loc), fin |-> Opt(m.fin), ctl |-> [k |-> m.ctl.k, mn |-> m.ctl.mn, mx |-> m.ctl.mx, n |-> m.ctl.n,
                   rs |-> [i \in 1..m.ctl.nr |-> i], ts |-> [i \in 1..m.ctl.nt |-> i]],
                 reqs |-> [i \in DOMAIN m.reqs |-> << m.reqs[i][1], Opt(m.reqs[i][2]) >>]]
Concrete(e) ==
    [rep |-> e.rep, k |-> e.k, unw |-> e.unw, exc |-> e.exc, msg |-> S(e.msg),
     call |-> [ret |-> "R" \o S(e.call.ret), loc |-> Loc(e.call.loc), cat |-> e.call.cat, cst |-> e.call.cst,
               args |-> [i \in DOMAIN e.call.args |-> << "T" \o S(e.call.args[i][1]), "V" \o S(e.call.args[i][2]) >>]],
     ms |-> [i \in DOMAIN e.ms |-> ConcreteM(e.ms[i])],
     ex |-> [loc |-> Loc(e.ex.loc), fin |-> Opt(e.ex.fin), times |-> Opt(e.ex.times), reqs |-> [i \in DOMAIN e.ex.reqs |-> Opt(e.ex.reqs[i])]]]

Count(P(_), s) == Cardinality({ i \in DOMAIN s : P(s[i]) })
Pos(x, s) == CHOOSE i \in DOMAIN s : s[i] = x
Has(x, s) == \E i \in DOMAIN s : s[i] = x

\* each described requirement appears once, failed ones between the headings, passed ones behind the second
MatchFaithful(m) ==
    LET ls == MatchLines(m)
        f == IF Has("failed:", ls) THEN Pos("failed:", ls) ELSE 0
        p == IF Has("passed:", ls) THEN Pos("passed:", ls) ELSE Len(ls)
        with(ok) == { i \in DOMAIN m.reqs : m.reqs[i][1] = ok /\ m.reqs[i][2][1] = 1 }
    IN /\ (f # 0) <=> with(0) # {}
       /\ (p # Len(ls)) <=> with(1) # {}
       /\ f # 0 => f < p /\ p - f - 1 = Cardinality(with(0))
       /\ Len(ls) - p = IF with(1) = {} THEN 0 ELSE Cardinality(with(1)) + 1
       /\ \A i \in with(0) : \E j \in (f + 1)..(p - 1) : ls[j] = "\t" \o m.reqs[i][2][2] \o ","
       /\ \A i \in with(1) : \E j \in (p + 1)..(Len(ls) - 1) : ls[j] = "\t" \o m.reqs[i][2][2] \o ","

\* saturation, further matches and missing matches are told apart
TimesFaithful(c) ==
    LET t == TimesText(c.mn, c.mx, c.n) IN
    c.mx < 10 => \A x \in 0..c.mx : TimesText(c.mn, c.mx, x) = t => x = c.n

Inv ==
    LET e == Concrete(ev)
        o == Outcome(e.rep, e, e.unw)
        ls == EventLines(e)
    IN /\ \A i \in DOMAIN e.ms : MatchFaithful(e.ms[i]) /\ TimesFaithful(e.ms[i].ctl)
       /\ e.k \in {FullMatch, Unhandled} => o = "ret"
       /\ e.k \in {NoMatch, InappMatch} => o # "ret"
       /\ e.k \in {Unful, Err} => (o = "ret" <=> Unwinding(e.unw))
       /\ (Written(e.rep, e, e.unw) # "" \/ Callbacks(e.rep, e, e.unw) # << >>) <=> ~(Dropped(e, e.unw) \/ (e.rep # 5 /\ e.k = FullMatch))
       /\ e.k \in {NoMatch, InappMatch, FullMatch} => Count(LAMBDA x : x = "}", ls) = Len(e.ms)
       /\ e.k \in {NoMatch, InappMatch, FullMatch, Unhandled} =>
            /\ Count(LAMBDA x : x = "\t},", ls) = Len(e.call.args)
            /\ \A i \in DOMAIN e.call.args : \E j \in DOMAIN ls :
                 ls[j] = "\targ[" \o ToString(i - 1) \o "]: {" /\ ls[j + 1] = "\t\ttype: " \o e.call.args[i][1] \o "," /\ ls[j + 2] = "\t\tvalue: " \o e.call.args[i][2]

Emit == Admissible(ev) => PrintT("SCRIPT " \o ToJson(ev))
=============================================================================
