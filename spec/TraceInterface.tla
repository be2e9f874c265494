--------------------------- MODULE TraceInterface ---------------------------
(* Validates traces of harness/iface against Interface. *)
EXTENDS Interface, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES S, l, script, skip
vars == << S, l, script, skip >>

Init == S = S0 /\ l = 1 /\ script = 0 /\ skip = FALSE
Chk(ok, p, why) == IF ok THEN {} ELSE { << p, why >> }
Report(bad) == \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)

CallBad(ev, r) ==
    Chk(ev.verdict = r.verdict, "C21", "verdict of a call")
    \union (IF ev.verdict # r.verdict THEN {}
            ELSE Chk(ev.x = r.x, "C21", "expectation that handles the call")
                 \union Chk(ev.obs = r.obs, "C21", "arguments")
                 \union Chk(ev.after = r.after, "C21", "objects of the caller")
                 \union Chk(ev.res = r.res, "C21", "result")
                 \union Chk(ev.copies = 0, "C21", "arguments are copied"))

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l]
           step(t, bad) == Report(bad) /\ S' = t /\ skip' = (bad # {}) /\ UNCHANGED script
           quiet == Chk(ev.reports = 0, "C21", "an unexpected report")
       IN CASE ev.op = "start" -> S' = S0 /\ skip' = FALSE /\ script' = ev.id
            [] ev.op = "end" \/ skip -> UNCHANGED << S, script, skip >>
            [] ev.op = "X" -> step(AddOp(S, ev.x, ev.obj, ev.o, ev.lim, ev.fin, ev.res, ev.pats), quiet)
            [] ev.op = "D" -> step(EndOp(S, ev.x), quiet)
            [] ev.op = "M" -> step(S, quiet)
            [] ev.op = "C" -> LET r == CallOp(S, ev.obj, ev.o, ev.vals) IN
                              step(r.S, CallBad(ev, r) \union Chk(ev.reports = r.reports, "C21", "reports of a call"))

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
