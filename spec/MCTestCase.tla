---------------------------- MODULE MCTestCase ----------------------------
(***************************************************************************)
(* Test cases: every short one of a family, or random ones.  FAM:          *)
(*   verdict  expectations without sequences, calls and ends in all        *)
(*            contexts                                                     *)
(*   seq      sequences that end in all contexts                           *)
(*   user     assertions and exceptions of the user, throwing requirements *)
(*   install  exchange of the reporter                                     *)
(*   sim      random ones (for -simulate)                                  *)
(* Test cases that make a sequence end unfinished outside of unwinding     *)
(* are left out (known finding).                                           *)
(***************************************************************************)
EXTENDS TestCase, Json, IOUtils

Fam == IOEnv.FAM
Wide == IOEnv.WIDE = "1"
Plain == IOEnv.FW = "plain"
Depth == IF Fam = "sim" THEN 14 ELSE IF Wide THEN 5 ELSE 4

VARIABLES U, log, hist
vars == << U, log, hist >>

Begin == IF Plain THEN U0 ELSE [U0 EXCEPT !.rep = 5]
Base == [op |-> "", x |-> 0, t |-> 0, v |-> 0, tk |-> 0, ta |-> 0, tb |-> 0, seqs |-> << >>, s |-> 0, k |-> 0,
         loc |-> << 0, "", "", "", "" >>, ty |-> "int"]

Free == { x \in XSlots : U.S.own[x] = 0 }
Held == XSlots \ Free
Open == { s \in QSlots : U.S.ss[s] # 0 }
XEv(x, t, v, tk, ta, tb, ss) ==
    [Base EXCEPT !.op = "X", !.x = x, !.t = t, !.v = v, !.tk = tk, !.ta = ta, !.tb = tb, !.seqs = ss,
                 !.loc = << 1, "here", ToString(Len(U.S.ex) + 1), "1", "f" >>]
VEv(op, v) == [Base EXCEPT !.op = op, !.v = v]
EEv(op, x) == [Base EXCEPT !.op = op, !.x = x]
WEv(x, s)  == [Base EXCEPT !.op = "W", !.x = x, !.s = s]
QEv(s)     == [Base EXCEPT !.op = "Q", !.s = s]
IEv(k)     == [Base EXCEPT !.op = "I", !.k = k]
UEv(op)    == [Base EXCEPT !.op = op]

NewX(S) == { XEv(x, a[1], a[2], a[3], a[4], a[5], a[6]) : x \in IF Free = {} THEN {} ELSE {MinOf(Free)}, a \in S }
Verbs(ops, vs) == { VEv(o, v) : o \in ops, v \in vs }
Ends(ops) == { EEv(o, x) : o \in ops, x \in Held }

Lists == { ss \in { << >>, << 1 >>, << 1, 2 >> } : \A i \in DOMAIN ss : ss[i] \in Open }

Menu ==
    CASE Fam = "verdict" -> NewX({ << 1, 1, 0, 0, 0, << >> >>, << 0, 0, 2, 2, 0, << >> >>, << 2, 1, 4, 1, 0, << >> >> })
                            \union Verbs({"C", "H", "T", "U"}, {1, 2}) \union Ends({"D", "E", "K", "Z"})
      [] Fam = "seq"     -> NewX({ << 1, 1, 0, 0, 0, ss >> : ss \in Lists } \union { << 1, 2, 4, 1, 0, ss >> : ss \in Lists \ {<< >>, << 1, 2 >>} })
                            \union Verbs({"C", "T"}, {1, 2}) \union Ends({"D", "Z"})
                            \union { QEv(s) : s \in Open } \union { WEv(x, s) : x \in Held, s \in Open }
      [] Fam = "user"    -> NewX({ << 7, 1, 1, 0, 2, << >> >>, << 1, 1, 0, 0, 0, << >> >> })
                            \union Verbs({"C", "T", "U"}, {1, 2}) \union Ends({"Z"}) \union { UEv(o) : o \in {"A", "F"} }
      [] Fam = "install" -> NewX({ << 1, 1, 0, 0, 0, << >> >>, << 7, 2, 4, 1, 0, << >> >> })
                            \union Verbs({"T"}, {1, 2}) \union Ends({"K"}) \union { IEv(k) : k \in Reps \ {U.rep} }

Pick(S) == RandomElement(S)
RandX(k) ==
    LET x == Pick(Free)
        t == Pick({0, 1, 1, 2, 3, 5, 7})
        tk == Pick(0..4)
        a == Pick(0..2)
        ss == IF Open = {} THEN << >> ELSE Pick({ << >> } \union { << s >> : s \in Open } \union { p \in Open \X Open : p[1] # p[2] })
    IN XEv(x, t, Pick(0..3), tk, a, IF tk = 1 THEN a + Pick(0..2) ELSE 0, ss)
RandOp(k) ==
    LET c == Pick(1..40) IN
    CASE c <= 12 /\ Free # {} -> RandX(k)
      [] c = 13 /\ Open # {} -> QEv(Pick(Open))
      [] c = 14 /\ Open # {} /\ Held # {} -> WEv(Pick(Held), Pick(Open))
      [] c \in 15..17 /\ Held # {} -> EEv(Pick({"K", "Z"}), Pick(Held))
      [] c = 18 -> IEv(Pick(Reps))
      [] c = 19 /\ Pick(1..3) = 1 -> UEv(Pick({"A", "F"}))
      [] c = 20 /\ Held # {} -> EEv(Pick({"D", "E"}), Pick(Held))
      \* mostly calls that are handled
      [] OTHER -> LET v == Pick(0..3) g == { w \in 0..3 : CallStep(U, w, Base.loc, "").res # -1 } IN
                  IF g # {} /\ Pick(1..4) # 1 THEN VEv(Pick({"C", "H", "T", "U"}), Pick(g)) ELSE VEv(Pick({"T", "U"}), v)

Allowed(ev) ==
    /\ ev.op = "I" => Plain
    /\ ~Terminates(Op(U, ev).ds)

Init == U = Begin /\ log = << >> /\ hist = << >>
Do(ev) == Allowed(ev) /\ LET r == Op(U, ev) IN U' = r.U /\ log' = log \o r.ds /\ hist' = Append(hist, ev)
Next ==
    /\ ~U.over /\ Len(hist) < Depth
    /\ IF Fam = "sim" THEN \E ev \in { RandOp(Len(hist)) } :
                           IF Allowed(ev) THEN Do(ev) ELSE UNCHANGED << U, log >> /\ hist' = Append(hist, [Base EXCEPT !.op = "I", !.k = U.rep])
       ELSE \E ev \in Menu : Do(ev)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------

F == Finish(U)
All == log \o F.ds
Lost == { i \in DOMAIN All : All[i][1].k = Unful }
Of(u) == { i \in Lost : All[i][1].ex.loc = U.xl[u] }

Inv ==
    \* every unsatisfied expectation is reported once, and no other
    /\ \A u \in DOMAIN U.S.ex : Cardinality(Of(u)) = IF Sat(F.U.S.ex[u]) THEN 0 ELSE 1
    /\ Cardinality(Lost) = Cardinality({ u \in DOMAIN U.S.ex : ~Sat(F.U.S.ex[u]) })
    \* a failure for every failing report, unless there is already one on its way
    /\ F.U.fails = Cardinality({ i \in DOMAIN All : All[i][1].k \in {NoMatch, InappMatch} \/ (All[i][1].k \in {Unful, Err} /\ ~All[i][2]) })
    \* the end of the body adds at most one, and none if there is already one on its way
    /\ F.U.fails - U.fails <= IF U.over THEN 0 ELSE 1
    \* a handled call fails no test
    /\ \A i \in DOMAIN All : All[i][1].k \in {FullMatch, Unhandled} => ~Raises(All[i][1], All[i][2])
    \* everything is gone at the end
    /\ \A x \in XSlots : F.U.S.own[x] = 0
    /\ \A s \in DOMAIN U.S.sq : Ended(F.U.S, s)

Emit == ~Terminates(F.ds) /\ hist # << >> => PrintT("SCRIPT " \o ToJson([i \in DOMAIN hist |->
          LET e == hist[i] IN
          CASE e.op = "X" -> << "X", e.x, e.t, e.v, e.tk, e.ta, e.tb, Len(e.seqs) >> \o e.seqs
            [] e.op \in {"C", "H", "T", "U"} -> << e.op, e.v >>
            [] e.op \in {"D", "E", "K", "Z"} -> << e.op, e.x >>
            [] e.op = "W" -> << "W", e.x, e.s >>
            [] e.op = "Q" -> << "Q", e.s >>
            [] e.op = "I" -> << "I", e.k >>
            [] OTHER -> << e.op >>]))
EmitSim == (Fam = "sim" /\ ~U.over /\ Len(hist) < Depth) \/ Emit
=============================================================================
