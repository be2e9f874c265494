---------------------------- MODULE TraceTestCase ----------------------------
(* Validates traces of harness/adapters against TestCase.  FW is the framework: plain (the reporters of the library),
   gtest, catch2, doctest or boost. *)
EXTENDS TestCase, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
FW == IOEnv.FW
Plain == FW = "plain"
Prop == IF Plain THEN "C29" ELSE "C25"

VARIABLES U, l, script, skip
vars == << U, l, script, skip >>

Begin == IF Plain THEN U0 ELSE [U0 EXCEPT !.rep = 5]
Init == U = Begin /\ l = 1 /\ script = 0 /\ skip = FALSE

Chk(ok, p, why) == IF ok THEN {} ELSE { << p, why >> }
Report(bad) == \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)

\* what the framework or the streams should have got
Entries(rep, ds) ==
    LET cbs == Flat(Map(LAMBDA d : Callbacks(5, d[1], Ctx(d[2])), ds))
        shown == IF FW = "gtest" THEN SelectSeq(cbs, LAMBDA c : c[1] # "warn") ELSE cbs
        text == Cat(Map(LAMBDA d : Written(rep, d[1], Ctx(d[2])), ds))
    IN IF rep = 5 THEN shown
       ELSE IF Stream(rep) = 0 \/ text = "" THEN << >>
       ELSE << << IF rep = 1 THEN "s1" ELSE "s2", text >> >>

Kinds1(log) == [i \in DOMAIN log |-> log[i][1]]
\* reports of the framework about exceptions and failures of the user's are its own business
\* whether a failure itself ends the test or an exception behind it does is seen in ev.over
Ours(log) == Map(LAMBDA x : << IF x[1] = "soft" THEN "fail" ELSE x[1], x[2] >>, SelectSeq(log, LAMBDA x : x[1] # "exc" /\ x[2] # "user failure"))

LogBad(rep, ds, log) ==
    LET want == Entries(rep, ds) got == Ours(log) IN
    Chk(Kinds1(got) = Kinds1(want), Prop, "reports that reached the framework or stream")
    \union Chk(Kinds1(got) = Kinds1(want), "C14", "reports that reached the reporter")
    \union (IF Kinds1(got) = Kinds1(want) THEN Chk(got = want, Prop, "text of a report") \union Chk(got = want, "C20", "text of a report") ELSE {})

\* the exception that a reporter of the library threw
ExcBad(rep, e, exc, got) ==
    IF ~exc THEN Chk(got = << >>, Prop, "an exception although nothing failed")
    ELSE IF got = << >> THEN { << Prop, "no exception" >> }
    ELSE IF ~Plain THEN {}
    ELSE Chk(got[1] = Outcome(rep, e, 0), Prop, "type of the exception")
         \union (IF got[1] = Outcome(rep, e, 0)
                 THEN Chk(got[2] = EventText(e), Prop, "text of the exception")
                      \union (IF got[1] = "unmatched" THEN Chk(got[3] = e.call.loc, Prop, "location of the exception") ELSE {})
                 ELSE {})

Caught(op) == op \in {"T", "U", "K", "Z", "W"}

OpBad(ev, r) ==
    LET raised == Raised(r.ds) IN
    Chk(ev.over = (IF r.U.over THEN 1 ELSE 0), Prop, "whether the test goes on")
    \union LogBad(U.rep, r.ds, ev.log)
    \union (IF Caught(ev.op) THEN ExcBad(U.rep, IF raised THEN Raiser(r.ds) ELSE << >>, raised, ev.exc) ELSE {})
    \union (IF ev.op \in {"C", "H", "T", "U"} THEN Chk(ev.res = r.res, "C11", "result of a call") \union Chk(ev.res = r.res, Prop, "result of a call") ELSE {})

FinBad(ev, r) ==
    LET T == r.U
        failed == IF Plain THEN U.over \/ Raised(r.ds) ELSE T.fails > 0 \/ T.own
    IN Chk((ev.failed = 1) <=> failed, Prop, "verdict of the test")
       \union LogBad(U.rep, r.ds, ev.log)
       \union (IF Plain /\ ~U.over THEN ExcBad(U.rep, IF Raised(r.ds) THEN Raiser(r.ds) ELSE << >>, Raised(r.ds), ev.exc) ELSE {})
       \* a failure is not turned into another one; gtest itself reports the exception which ends the test
       \union (IF ~Plain /\ FW # "gtest" /\ ~T.own THEN Chk(\A i \in DOMAIN ev.log : ev.log[i][1] # "exc", Prop, "an additional failure") ELSE {})

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> U' = Begin /\ skip' = FALSE /\ script' = ev.id
         [] ev.op = "end" -> UNCHANGED << U, script, skip >>
         [] skip -> UNCHANGED << U, script, skip >>
         [] ev.op = "fin" ->
              LET r == Finish(U) IN Report(FinBad(ev, r)) /\ U' = r.U /\ skip' = TRUE /\ UNCHANGED script
         [] OTHER ->
              LET r == Op(U, ev)
                  bad == OpBad(ev, r)
              IN Report(bad) /\ U' = r.U /\ skip' = (bad # {}) /\ UNCHANGED script

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
