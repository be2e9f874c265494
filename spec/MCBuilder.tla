------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* Setting up an expectation step by step.  A state is what is written so  *)
(* far, a transition adds an element that fits.                            *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils

Fam == IOEnv.FAM          \* "all": every path up to Depth; "long": random ones; "pos": positional arguments
Depth == CASE IOEnv.DEPTH = "1" -> 1 [] IOEnv.DEPTH = "2" -> 2 [] IOEnv.DEPTH = "3" -> 3 [] IOEnv.DEPTH = "4" -> 4 [] OTHER -> 7

VARIABLES sig, pos, path
vars == << sig, pos, path >>
S == Sigs[sig]

Tuples(n) == [1..n -> Positionals]
Wildcards(s) == [i \in DOMAIN s.ps |-> "_"]
Fitting(s) == { t \in Tuples(Len(s.ps)) : CanExpect(s, t) }
One(A) == {RandomElement(A)}

Init == /\ sig \in DOMAIN Sigs
        /\ path = << >>
        /\ CASE Fam = "pos" -> pos \in UNION { Tuples(n) : n \in 0 .. (IF Len(Sigs[sig].ps) < 2 THEN 2 ELSE Len(Sigs[sig].ps)) }
             [] Fam = "all" -> pos = Wildcards(Sigs[sig])
             [] OTHER -> pos \in Fitting(Sigs[sig])
Fresh(n) == Fam # "long" \/ \A i \in DOMAIN path : path[i] # n \/ Items[n].k \notin {"times", "fin"}
\* random paths: every kind of element is as likely as any other
Kind == {"times", "seq", "fin", "req", "eff", "all", "own"}
Candidates == LET acc == Accepted(S, path) IN
              IF Fam = "all" THEN acc
              ELSE LET ks == { k \in Kind : \E n \in acc : Items[n].k = k } IN
                   UNION { One({ n \in acc : Items[n].k = k }) : k \in One(ks) }
Next ==
    /\ Fam # "pos" /\ Len(path) < Depth
    /\ \E n \in Candidates : path' = Append(path, n)
    /\ UNCHANGED << sig, pos >>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
H == History(S, pos, path)
TypeOK == Acceptable(S, path) /\ (Fam # "pos" => CanExpect(S, pos))
\* what has been set up stays set up: limits and result are those of the only element that is about them, in whatever place
Limited == LET t == Of(path, {"times"}) f == Of(path, {"fin"}) IN Len(t) <= 1 /\ Len(f) <= 1 /\ (S.r # "void" /\ Complete(S, path) => Len(f) = 1)
\* what fits first, fits later, except for limits and finalizers
Monotone == \A n \in Names : Items[n].k \notin {"times", "fin"} => (Fits(S, Empty, n) <=> Fits(S, State(path, Len(path)), n))
\* order matters only among the side effects: moving limits, sequences, finalizers and requirements to the front changes nothing
Effects == {"eff", "all", "own"}
Reordered == Of(path, {"fin"}) \o Of(path, {"req"}) \o Of(path, {"times"}) \o Of(path, {"seq"}) \o Of(path, Effects)
Commute == Fam # "pos" /\ Complete(S, path) =>
    LET a == H b == History(S, pos, Reordered) IN
    Len(a) = Len(b) /\ Acceptable(S, Reordered) /\ End(pos, path) = End(pos, Reordered)
    /\ \A i \in DOMAIN a : << a[i].what, a[i].control, a[i].res, a[i].log, a[i].after, a[i].sat >> = << b[i].what, b[i].control, b[i].res, b[i].log, b[i].after, b[i].sat >>
\* an expectation is consumed only by what it matches, and never more often than allowed
Bounded == Fam # "pos" /\ Complete(S, path) =>
    LET full == { i \in DOMAIN H : H[i].what = "full" } IN
    /\ Cardinality(full) <= Limits(path)[2]
    /\ full # {} => Matching(pos, path)

Emit == (Fam = "pos" \/ Fam = "all" \/ Len(path) >= 3) => PrintT("SCRIPT " \o ToJson([fam |-> IF Fam = "pos" THEN "pos" ELSE "path", sig |-> sig, pos |-> pos, path |-> path]))
=============================================================================
