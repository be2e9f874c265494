---------------------------- MODULE TracePrinter ----------------------------
(* Validates traces of harness/printer against Printer. *)
EXTENDS Printer, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, script
vars == << l, script >>

Init == l = 1 /\ script = 0
Report(bad) == \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)
Chk(ok, p, why) == IF ok THEN {} ELSE { << p, why >> }

Bad(ev) ==
    IF ev.op # "print" THEN {}
    ELSE Chk(ev.text = Printed(ev.tree), "C23", "text of a value")
         \union Chk(ev.same = 1 \/ ev.via = 2, "C23", "the value is altered")
         \union Chk(ev.via = 5 => ev.text = Printed(ev.tree), "C20", "text of an argument")

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ script' = IF Trace[l].op = "start" THEN Trace[l].id ELSE script
    /\ Report(Bad(Trace[l]))

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
