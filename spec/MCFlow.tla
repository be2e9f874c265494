------------------------------- MODULE MCFlow -------------------------------
(* Explores every call of every combination of signature, chain and finalizer step by step, checks the properties
   that the model is meant to express, and prints the combinations as scripts for the library. *)
EXTENDS Flow, IOUtils, Json

VARIABLES x, c, n, calls, rv
vars == << x, c, n, calls, rv >>

Deltas == IF IOEnv.WIDE = "1" THEN { << 1, 10, 100, 3, 30, 300, 7, 5, 50, 500, 9, 90 >>, << 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2 >>, << -5, 1, 0, 9, -9, 4, 0, 8, -8, 3, 1, 6 >> }
          ELSE { << 1, 10, 100, 3, 30, 300, 7, 5, 50, 500, 9, 90 >> }
Vals == IF IOEnv.WIDE = "1" THEN { << 1, 2, 3 >>, << 5, 5, 5 >>, << -7, 0, 7 >> } ELSE { << 1, 2, 3 >>, << 5, 5, 5 >> }
Rvs == { << a, 0, b >> : a \in {0, 1}, b \in {0, 1} }
Calls == 2

Exps == { [sig |-> s, chain |-> ch, fin |-> f, val |-> 70 + ch, delta |-> d] :
          s \in Sigs, ch \in 0..4, f \in -1..15, d \in Deltas }

Init == /\ x \in { e \in Exps : Available(e.sig, e.chain, e.fin) }
        /\ c = [ph |-> "idle"] /\ n = 0 /\ calls = << >> /\ rv = << 0, 0, 0 >>

Invoke == /\ c.ph \in {"idle", "done"} /\ n < Calls
          /\ \E v \in Vals, r \in Rvs :
               /\ n' = n + 1 /\ rv' = r
               /\ c' = Start(x, v, n')
               /\ calls' = Append(calls, << v, r >>)
          /\ UNCHANGED x

Advance == c.ph \in {"match", "eff", "fin"} /\ c' = Step(c) /\ UNCHANGED << x, n, calls, rv >>

Next == Invoke \/ Advance
Spec == Init /\ [][Next]_vars

Emit == (c'.ph = "done" /\ n = Calls /\ c.ph # "done") => PrintT("SCRIPT " \o ToJson([x |-> x, calls |-> calls]))

\* ---- what the model is meant to express ----------------------------------------------------------------------
SideLog == SelectSeq(c.log, LAMBDA o : o[1] = "e")
Bumps(k, a) == LET it == Effects(x.chain)[k] IN
    IF it.t = "eff" /\ Mutable(Params[x.sig][a + 1])
    THEN (x.delta[it.k] + c.n - 1) * Cardinality({ j \in DOMAIN it.args : it.args[j] = a }) ELSE 0
RECURSIVE Upto(_, _)
Upto(k, a) == IF k = 0 THEN 0 ELSE Bumps(k, a) + Upto(k - 1, a)

\* C12: every side effect that ran did so once and in the order of attachment; all of them before the result exists
Order == c.ph # "idle" =>
    /\ \A k \in DOMAIN SideLog : SideLog[k][2] = Effects(x.chain)[k].k
    /\ c.ph \in {"fin", "done"} => Len(SideLog) = Len(Effects(x.chain))
    /\ c.ph # "done" => c.res[1] = "none"

\* C13: every side effect and the finalizer see the selected arguments, with all earlier changes and no later ones
SeesChanges == c.ph # "idle" =>
    \A k \in DOMAIN SideLog :
        \A j \in DOMAIN Effects(x.chain)[k].args :
            LET a == Effects(x.chain)[k].args[j] IN
            /\ SideLog[k][3][j][2] = c.init[a + 1] + Upto(k - 1, a)
            /\ SideLog[k][3][j][1] \in {a, ANY}

\* C11 and C13: what is left behind
Final == c.ph = "done" =>
    /\ \A a \in 0..2 : Determined(c, rv, a) =>
         After(c, a) = c.init[a + 1] + (IF Params[x.sig][a + 1] = "val" THEN 0 ELSE Upto(Len(Effects(x.chain)), a))
    /\ c.res[1] # "none"
    /\ x.fin \in 9..12 <=> c.res[1] = "exc"
    /\ (x.sig = 6 /\ x.fin \in {-1, 6, 7, 13}) <=> c.res[1] = "void"
    /\ x.fin \in {2, 6, 7, 10, 11, 12, 13, 15} <=> c.fn = 1

Inv == Order /\ SeesChanges /\ Final
=============================================================================
