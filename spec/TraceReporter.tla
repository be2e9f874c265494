---------------------------- MODULE TraceReporter ----------------------------
(* Validates traces of harness/reporter against Reporter. *)
EXTENDS Reporter, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, script
vars == << l, script >>

Init == l = 1 /\ script = 0

Chk(ok, p, why) == IF ok THEN {} ELSE { << p, why >> }
Report(bad) == \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)

\* a text that should appear: its rendering is C20, that it is the one which appears is C29
EvBad(ev) ==
    LET o == Outcome(ev.rep, ev, ev.unw)
        str(i) == IF Stream(ev.rep) = i THEN Written(ev.rep, ev, ev.unw) ELSE ""
        cb == Callbacks(ev.rep, ev, ev.unw)
        text == EventText(ev)
    IN Chk(ev.out = o, "C29", "outcome of a report")
       \union (IF ev.out # o THEN {} ELSE
               (CASE o = "unmatched" -> Chk(ev.data.call = ev.call /\ ev.data.ms = ev.ms, "C29", "data of an unmatched-call error")
                                        \union Chk(ev.where = ev.call.loc, "C29", "location of an unmatched-call error")
                  [] o = "unfulfilled" -> Chk(ev.data.ex = ev.ex, "C29", "data of an unfulfilled error")
                  [] OTHER -> {})
               \union (IF o = "ret" THEN {} ELSE Chk(ev.what = text, "C29", "text of an error") \union Chk(ev.what = text, "C20", "rendered text")))
       \union UNION { Chk((<< ev.s1, ev.s2 >>[i] = "") <=> (str(i) = ""), "C29", "what is written to the stream")
                      \union Chk(<< ev.s1, ev.s2 >>[i] = str(i), "C29", "text on the stream")
                      \union Chk(<< ev.s1, ev.s2 >>[i] = str(i), "C20", "rendered text") : i \in 1..2 }
       \union Chk([i \in DOMAIN ev.cb |-> ev.cb[i][1]] = [i \in DOMAIN cb |-> cb[i][1]], "C29", "callback of the basic reporter")
       \union Chk(ev.cb = cb, "C29", "text for the callback of the basic reporter")
       \union Chk(ev.cb = cb, "C20", "rendered text")

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> script' = ev.id
         [] ev.op = "end" -> UNCHANGED script
         [] OTHER -> Report(EvBad(ev)) /\ UNCHANGED script

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
