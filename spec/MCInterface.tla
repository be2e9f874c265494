---------------------------- MODULE MCInterface ----------------------------
(***************************************************************************)
(* Families of scripts: pairs (an expectation for each of two overloads    *)
(* and calls of both, in every way), miss (a call of an overload that has  *)
(* no expectation while another one has), deep (one overload), sim.        *)
(***************************************************************************)
EXTENDS Interface, Json, IOUtils

Fam == IOEnv.FAM
Wide == IOEnv.WIDE = "1"
Depth == CASE Fam = "sim" -> 24 [] Fam = "pairs" -> 4 [] Fam = "miss" -> 2 [] OTHER -> IF Wide THEN 4 ELSE 3

VARIABLES S, hist, focus, last
vars == << S, hist, focus, last >>

Base == [op |-> "", x |-> 0, obj |-> 0, o |-> 0, lim |-> 0, fin |-> 0, res |-> 0, pats |-> << >>, via |-> 0]
X(x, obj, o, lim, fin, pats) == [Base EXCEPT !.op = "X", !.x = x, !.obj = obj, !.o = o, !.lim = lim, !.fin = fin, !.res = 50 + x, !.pats = pats]
C(obj, o, via, vals) == [Base EXCEPT !.op = "C", !.obj = obj, !.o = o, !.via = via, !.pats = vals]
Plain(op, x) == [Base EXCEPT !.op = op, !.x = x]

Same(o, v) == [i \in 1..Arity(o) |-> v]
Rising(o, v) == [i \in 1..Arity(o) |-> v + i - 1]
First(o, v) == [i \in 1..Arity(o) |-> IF i = 1 THEN v ELSE -1]
Last(o, v) == [i \in 1..Arity(o) |-> IF i = Arity(o) THEN v + i - 1 ELSE -1]

Apply(s, op) ==
    CASE op.op = "X" -> [S |-> AddOp(s, op.x, op.obj, op.o, op.lim, op.fin, op.res, op.pats), r |-> << >>]
      [] op.op = "C" -> LET c == CallOp(s, op.obj, op.o, op.pats) IN [S |-> c.S, r |-> << c >>]
      [] op.op = "D" -> [S |-> EndOp(s, op.x), r |-> << >>]
      [] op.op = "M" -> [S |-> s, r |-> << >>]

\* a call that is not handled, or throws, ends the program if the function is noexcept
Allowed(s, op) ==
    CASE op.op = "C" -> NoThrow(op.o) => CallOp(s, op.obj, op.o, op.pats).verdict = "ok"
      [] op.op = "X" -> op.x \notin Live(s) /\ (NoThrow(op.o) => op.fin = 0)
      [] op.op = "D" -> op.x \in Live(s)
      [] OTHER -> TRUE

Menu ==
    CASE Fam = "pairs" ->
           (CASE Len(hist) = 0 -> { X(0, 0, focus[1], 2, 0, Same(focus[1], -1)) }
              [] Len(hist) = 1 -> { X(1, 0, focus[2], 2, 0, Same(focus[2], -1)) }
              [] Len(hist) = 2 -> { C(0, focus[1], focus[3], Rising(focus[1], 1)) }
              [] OTHER -> { C(0, focus[2], focus[3], Rising(focus[2], 3)) })
      [] Fam = "miss" ->
           (IF Len(hist) = 0 THEN { X(0, 0, focus[1], 2, 0, Same(focus[1], -1)) }
            ELSE { C(b, focus[2], focus[3], Rising(focus[2], 1)) : b \in {0, 1} })
      [] Fam = "deep" ->
           LET o == focus[1] IN
           UNION { { X(x, 0, o, n, f, p) : n \in 1..2, f \in (IF x = 0 THEN {0, 1} ELSE {0}),
                     p \in { Same(o, -1), First(o, 1), Last(o, 2) } } : x \in (IF Wide THEN 0..2 ELSE 0..1) \ Live(S) }
           \union { C(0, o, v, p) : v \in {Len(hist) % 4}, p \in { Rising(o, 1), Rising(o, 2) } }
           \union { Plain("D", x) : x \in Live(S) } \union (IF Wide THEN { Plain("M", 0) } ELSE {})

Pick(A) == RandomElement(A)
RandPats(o, k) == LET c == Pick(0..3) IN IF c = 0 THEN Same(o, -1) ELSE IF c = 1 THEN Rising(o, Pick(1..3)) ELSE [i \in 1..Arity(o) |-> Pick({-1, -1, 1, 2, 3})]
RandVals(o, k) == IF Pick(0..1) = 0 THEN Rising(o, Pick(1..3)) ELSE [i \in 1..Arity(o) |-> Pick(1..3)]
\* mostly calls that could be handled
RandOp(k) ==
    LET c == Pick(1..20) live == Live(S) free == XSlots \ live IN
    CASE c <= 6 /\ free # {} -> LET o == IF live # {} /\ Pick(1..2) = 1 THEN S.e[Pick(live)].o ELSE Pick(Ovs) IN
                                X(Pick(free), IF Pick(1..4) = 1 THEN 1 ELSE 0, o, Pick(1..3), IF Pick(1..5) = 1 /\ ~NoThrow(o) THEN 1 ELSE 0, RandPats(o, k))
      [] c = 7 /\ live # {} -> Plain("D", Pick(live))
      [] c = 8 -> Plain("M", Pick(0..1))
      [] OTHER -> LET e == IF live = {} THEN None ELSE S.e[Pick(live)]
                      o == IF e.obj = -1 \/ Pick(1..6) = 1 THEN Pick(Ovs) ELSE e.o
                      v == RandVals(o, k)
                      w == IF e.obj # -1 /\ o = e.o /\ Pick(1..2) = 1 THEN [i \in DOMAIN v |-> IF e.pats[i] = -1 THEN v[i] ELSE e.pats[i]] ELSE v
                  IN C(IF e.obj # -1 /\ Pick(1..6) # 1 THEN e.obj ELSE Pick(0..1), o, Pick(0..3), w)

Focus == CASE Fam \in {"pairs", "miss"} -> Ovs \X Ovs \X (IF Wide THEN 0..3 ELSE {0, 2}) [] Fam = "deep" -> Ovs \X {0} \X {0} [] OTHER -> { << 0, 0, 0 >> }
Init == S = S0 /\ hist = << >> /\ last = << >> /\ focus \in { f \in Focus : Fam \notin {"pairs", "miss"} \/ f[1] # f[2] }
Do(op) == LET a == Apply(S, op) IN S' = a.S /\ last' = a.r /\ hist' = Append(hist, op) /\ UNCHANGED focus
Next ==
    /\ Len(hist) < Depth
    /\ IF Fam = "sim" THEN \E op \in { RandOp(Len(hist)) } :
                           IF Allowed(S, op) THEN Do(op) ELSE Do(Plain("M", 0))
       ELSE \E op \in { m \in Menu : Allowed(S, m) } : Do(op)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* limits are kept
Inv == \A x \in Live(S) : S.e[x].n <= S.e[x].lim
\* a call concerns the expectations of its object and overload only, and at most one of them
Step == [][ Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "C" =>
              LET op == hist'[Len(hist')] changed == { x \in XSlots : S'.e[x] # S.e[x] } IN
              /\ \A x \in changed : S.e[x].obj = op.obj /\ S.e[x].o = op.o
              /\ Cardinality(changed) = IF last'[1].verdict \in {"ok", "ex"} THEN 1 ELSE 0
              /\ (Fam = "pairs" => last'[1].verdict = "ok")
              /\ (Fam = "miss" => last'[1].verdict = "none") ]_vars

Lines == [i \in DOMAIN hist |->
            LET e == hist[i] IN
            CASE e.op = "X" -> << "X", e.x, e.obj, e.o, e.lim, e.fin, e.res >> \o e.pats
              [] e.op = "C" -> << "C", e.obj, e.o, e.via >> \o e.pats
              [] OTHER -> << e.op, e.x >>]
\* scripts end with a call, except random ones
Emit == (Len(hist) = Depth /\ (Fam = "sim" \/ hist[Depth].op = "C")) => PrintT("SCRIPT " \o ToJson(Lines))
=============================================================================
