---------------------------- MODULE TraceBuilder ----------------------------
(* Validates traces of harness/builder against Builder. *)
EXTENDS Builder, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, script
vars == << l, script >>

Init == l = 1 /\ script = 0
Chk(ok, p, why) == IF ok THEN {} ELSE { << p, why >> }
Report(bad) == \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)
Elements(s) == { s[i] : i \in DOMAIN s }

CallBad(e, o, n) ==
    LET at == "call " \o ToString(n) \o ": " IN
    Chk(o.what = e.what, "C31", at \o "whether the expectation is used")
    \union Chk(o.verdicts = e.verdicts, "C31", at \o "the requirements in the report")
    \union Chk(o.control = e.control, "C31", at \o "limits and sequences in the report")
    \union Chk(o.res = e.res, "C31", at \o "the result")
    \union Chk(o.log = e.log, "C31", at \o "the side effects")
    \union Chk(o.after = e.after, "C31", at \o "the arguments of the caller")
    \union Chk(o.sat = e.sat, "C31", at \o "whether the expectation is satisfied")

PathBad(ev) ==
    LET s == Sigs[ev.sig] acc == Accepted(s, ev.path) \intersect Elements(ev.tried) IN
    Chk(Elements(ev.accepted) \subseteq acc, "C31", "an element is accepted that does not fit")
    \union Chk(acc \subseteq Elements(ev.accepted), "C31", "an element that fits is not accepted")
    \union (IF ~Complete(s, ev.path) THEN Chk(~ev.run, "HARNESS", "an incomplete expectation")
            ELSE Chk(ev.run, "HARNESS", "a complete expectation")
                 \union Chk(ev.created = Created(ev.path), "C31", "whether the expectation can be created")
                 \union LET h == History(s, ev.pos, ev.path) IN
                        Chk(Len(h) = Len(ev.calls), "C31", "the calls")
                        \union (IF Len(h) # Len(ev.calls) THEN {} ELSE UNION { CallBad(h[n], ev.calls[n], n) : n \in DOMAIN h })
                 \union Chk(ev.end = End(ev.pos, ev.path), "C31", "what is reported in the end"))

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> script' = ev.id
         [] ev.op = "end" -> UNCHANGED script
         [] ev.op = "pos" -> Report(Chk(ev.can = CanExpect(Sigs[ev.sig], ev.pos), "C31", "positional arguments")) /\ UNCHANGED script
         [] ev.op = "path" -> Report(PathBad(ev)) /\ UNCHANGED script

Spec == Init /\ [][Next]_vars
Accepted_ == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
