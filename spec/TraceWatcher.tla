---------------------------- MODULE TraceWatcher ----------------------------
(* Validates traces of harness/watcher against Watcher.  After an operation whose outcome differs the states are
   incomparable and the rest of the script is skipped. *)
EXTENDS Watcher, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES W, ltm, l, script, skip
\* ltm: the mocks that have been those of a lifetime watcher
vars == << W, ltm, l, script, skip >>

Init == W = W0 /\ ltm = {} /\ l = 1 /\ script = 0 /\ skip = FALSE

Chk(ok, ps, why) == IF ok THEN {} ELSE { << p, why >> : p \in ps }
Report(bad) == \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)

Life == "C18"
Reloc == "C19"
Both == {Life, Reloc}

Got(ev) == [ i \in DOMAIN ev.rr |-> << ev.rr[i][1], Range(ev.rr[i][2]) >> ]
Lengths(ev) == \A i \in DOMAIN ev.rr : Len(ev.rr[i][2]) = Cardinality(Range(ev.rr[i][2]))

\* the properties an operation on this object is about
About(ev) ==
    CASE ev.op = "xd" -> {Life}
      [] ev.op = "xr" -> {Reloc}
      [] ev.op = "xdel" -> LET u == W.S.own[ev.x] IN IF u = 0 THEN Both ELSE IF W.S.ex[u].mu \in ltm THEN {Life} ELSE {Reloc}
      [] OTHER -> LET k == IF ev.op = "new" THEN ev.kind ELSE W.ob[ev.a].kind IN
                  (IF HasLt(k) THEN {Life} ELSE {}) \union (IF HasRl(k) THEN {Reloc} ELSE {})

\* of the properties that an operation is about, those that a wrong report concerns
ReportsAbout(ev) ==
    LET A == About(ev) IN
    IF Cardinality(A) < 2 THEN A
    ELSE CASE ev.op = "del" -> IF Got(ev) # << >> /\ W.ob[ev.a].lt # 1 THEN A ELSE {Life}
           [] ev.op \in {"mc", "ma"} -> IF Len(Got(ev)) > 1 THEN A ELSE {Reloc}
           [] ev.op = "ca" -> IF Len(Got(ev)) > (IF W.ob[ev.b].lt = 1 THEN 1 ELSE 0) THEN A ELSE {Life}
           [] OTHER -> A

SatBad(T, ev) ==
    UNION { LET x == ev.sat[i][1] u == ev.sat[i][2] IN
            IF T.S.own[x] # u THEN { << Life, "owner" >>, << Reloc, "owner" >> }
            ELSE Chk((ev.sat[i][3] = 1) <=> Sat(T.S.ex[u]), IF T.S.ex[u].mu \in ltm THEN {Life} ELSE {Reloc}, "satisfaction of an expectation")
            : i \in DOMAIN ev.sat }
ValBad(T, ev) ==
    UNION { LET o == ev.vals[i][1] k == T.ob[o].kind IN
            Chk(T.ob[o].val = ev.vals[i][2], (IF HasLt(k) THEN {Life} ELSE {}) \union (IF HasRl(k) THEN {Reloc} ELSE {}), "value of the watched object")
            : i \in DOMAIN ev.vals }

Lives(w) == { w.S.mk[LtSlot(o)].u : o \in Objs } \ {0}

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> W' = W0 /\ ltm' = {} /\ skip' = FALSE /\ script' = ev.id
         [] ev.op = "end" -> UNCHANGED << W, ltm, script, skip >>
         [] OTHER ->
              IF skip THEN UNCHANGED << W, ltm, script, skip >>
              ELSE LET r == Do(W, ev)
                       same == ev.res = r.res /\ Got(ev) = r.rr
                       bad == Chk(Got(ev) = r.rr /\ Lengths(ev), ReportsAbout(ev), "reports differ")
                              \union Chk(Got(ev) # r.rr \/ ev.res = r.res, About(ev), "outcome differs")
                              \union (IF same THEN SatBad(r.W, ev) \union ValBad(r.W, ev) ELSE {})
                   IN /\ Report(bad)
                      /\ skip' = (bad # {})
                      /\ W' = r.W
                      /\ ltm' = ltm \union Lives(r.W)
                      /\ UNCHANGED script

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
