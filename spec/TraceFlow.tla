------------------------------ MODULE TraceFlow ------------------------------
(* Validates traces of harness/flow against Flow. *)
EXTENDS Flow, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES x, n, stored, l, script
vars == << x, n, stored, l, script >>

NoExp == [sig |-> 1, chain |-> 0, fin |-> 0, val |-> 0, delta |-> << >>]
Init == x = NoExp /\ n = 0 /\ stored = 0 /\ l = 1 /\ script = 0

Chk(ok, p, why) == IF ok THEN {} ELSE { << p, why >> }
Report(bad) == \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)

\* an observed << identity, value >> where << identity (or ANY), value >> is expected; m maps parameters by value
IdOk(got, want) == IF want = ANY THEN got >= 10 /\ got # 40 ELSE got = want
SameObs(got, want) ==
    /\ got[1] = want[1] /\ got[2] = want[2]
    /\ Len(got[3]) = Len(want[3])
    /\ \A j \in DOMAIN want[3] : got[3][j][2] = want[3][j][2] /\ IdOk(got[3][j][1], want[3][j][1])

EffK(o) == << o[1], o[2] >>
IsE(o) == o[1] = "e"
IsInv(o) == o[3] # << >> /\ o[3][1][1] = -1
IsF(o) == o[1] = "f"

\* the identity under which parameter a was seen by the matcher of its position
OwnId(ev, a) == LET s == { i \in DOMAIN ev.obs : ev.obs[i][1] = "m" /\ ev.obs[i][2] = a } IN
    IF s = {} THEN -2 ELSE ev.obs[CHOOSE i \in s : TRUE][3][1][1]

\* the arguments that an observation is about
ArgsOf(o) == CASE o[1] = "m" -> << o[2] >>
               [] o[1] = "t" -> << 0, 1, 2 >>
               [] o[1] = "f" -> IF x.fin \in {6, 11} THEN << 1, 0 >> ELSE << 0, 1, 2 >>
               [] OTHER -> LET s == { i \in DOMAIN Chains[x.chain + 1] : Chains[x.chain + 1][i].k = o[2] } IN
                           IF s = {} THEN << >> ELSE LET it == Chains[x.chain + 1][CHOOSE i \in s : TRUE] IN
                           IF it.proj = "neg" \/ it.t = "inv" THEN << >> ELSE it.args

Consistent(ev) ==
    /\ \A i \in DOMAIN ev.obs : LET as == ArgsOf(ev.obs[i]) o == ev.obs[i] IN
         Len(o[3]) = Len(as) => \A j \in DOMAIN as : o[3][j][1] = OwnId(ev, as[j])
    /\ \A a, b \in 0..2 : a # b => OwnId(ev, a) # OwnId(ev, b)

CallBad(ev) ==
    LET c == Finish(Start(x, ev.vals, n + 1))
        wantE == SelectSeq(c.log, IsE) gotE == SelectSeq(ev.obs, IsE)
        wantF == SelectSeq(c.log, IsF) gotF == SelectSeq(ev.obs, IsF)
        reqs == Requirements(x.sig, x.chain, ev.vals)
        firstE == IF gotE = << >> THEN Len(ev.obs) + 1
                  ELSE CHOOSE i \in DOMAIN ev.obs : IsE(ev.obs[i]) /\ \A j \in 1..(i - 1) : ~IsE(ev.obs[j])
        lastE == IF gotE = << >> THEN 0
                 ELSE CHOOSE i \in DOMAIN ev.obs : IsE(ev.obs[i]) /\ \A j \in DOMAIN ev.obs : j > i => ~IsE(ev.obs[j])
        ordered == Len(gotE) = Len(wantE) /\ \A i \in DOMAIN wantE : EffK(gotE[i]) = EffK(wantE[i])
        argFin == x.fin \in {3, 4, 5, 6, 7, 13}
        resOk == /\ ev.res[1] = c.res[1] /\ ev.res[3] = c.res[3]
                 /\ IF c.res[2] = ANY THEN ev.res[2] >= 10 /\ ev.res[2] # 40 /\ (stored = 0 \/ ev.res[2] = stored)
                                           /\ \A a \in 0..2 : OwnId(ev, a) # ev.res[2]
                    ELSE ev.res[2] = c.res[2]
    IN Chk(\A r \in reqs : \E i \in 1..(firstE - 1) : SameObs(ev.obs[i], r), "C13", "a requirement did not get its argument")
       \union Chk(\A i \in 1..(firstE - 1) : ev.obs[i][1] \in {"m", "a", "t"} => \E r \in reqs : SameObs(ev.obs[i], r),
                  "C13", "a requirement got something else")
       \union Chk(ordered, "C12", "side effects: wrong number or order")
       \union Chk(ordered => \A i \in DOMAIN wantE : SameObs(gotE[i], wantE[i]), "C13", "a side effect got other arguments")
       \union Chk(\A i \in DOMAIN ev.obs : ev.obs[i][1] = "e" =>
                     Cardinality({ j \in DOMAIN gotE : EffK(gotE[j]) = EffK(ev.obs[i]) }) = Cardinality({ j \in DOMAIN wantE : EffK(wantE[j]) = EffK(ev.obs[i]) }),
                  "C12", "a side effect ran more than once or unexpectedly")
       \union Chk(ordered => \A i \in DOMAIN wantE : Len(gotE[i][3]) = Len(wantE[i][3]), "C12", "a side effect got another number of arguments")
       \union Chk(ordered => \A i \in DOMAIN wantE : IsInv(wantE[i]) => gotE[i] = wantE[i], "C12", "the state of a side effect is lost")
       \union Chk(Len(gotF) = Len(wantF) /\ ev.fn = c.fn, "C11", "finalizer evaluated another number of times")
       \union Chk(Len(gotF) = Len(wantF) => \A i \in DOMAIN wantF : SameObs(gotF[i], wantF[i]), "C13", "the finalizer got other arguments")
       \union Chk(\A i \in DOMAIN ev.obs : IsF(ev.obs[i]) => i > lastE, "C12", "the finalizer ran before a side effect")
       \union Chk(Consistent(ev), "C13", "an argument changed its identity")
       \union Chk(resOk, "C11", "wrong result")
       \union Chk(argFin /\ ordered => resOk, "C13", "wrong result from arguments")
       \union Chk(\A a \in 0..2 : Determined(c, ev.rv, a) => ev.after[a + 1] = After(c, a), "C13", "wrong value left with the caller")
       \union Chk(ev.copies <= Copies(c, ev.rv), "C13", "copied behind the user's back")

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> x' = NoExp /\ n' = 0 /\ stored' = 0 /\ script' = ev.id
         [] ev.op = "end" -> UNCHANGED << x, n, stored, script >>
         [] ev.op = "exp" -> x' = [sig |-> ev.sig, chain |-> ev.chain, fin |-> ev.fin, val |-> ev.val, delta |-> ev.delta]
                             /\ n' = 0 /\ stored' = 0 /\ UNCHANGED script
         [] ev.op = "call" -> /\ Report(CallBad(ev))
                              /\ n' = n + 1
                              /\ stored' = IF x.fin = 0 /\ ev.res[1] = "ref" THEN ev.res[2] ELSE stored
                              /\ UNCHANGED << x, script >>

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
