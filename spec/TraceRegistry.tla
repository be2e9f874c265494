--------------------------- MODULE TraceRegistry ---------------------------
(* Is the recorded history of each script linearizable? *)
EXTENDS Registry, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES L, l, script, skip
vars == << L, l, script, skip >>

Init == L = Lin0 /\ l = 1 /\ script = 0 /\ skip = FALSE

\* a script that did not follow its schedule is not judged
Followed(k) == LET ends == { j \in (k + 1) .. Len(Trace) : Trace[j].op \in {"start", "end"} }
                   stop == CHOOSE j \in ends : \A i \in ends : j <= i
               IN ends = {} \/ Trace[stop - 1].op # "late"

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> L' = Lin0 /\ skip' = FALSE /\ script' = ev.id
         [] ev.op \in {"end", "late"} \/ skip -> UNCHANGED << L, script, skip >>
         [] ev.op = "inv" -> L' = LinInvoke(L, ev.t, ev.o) /\ UNCHANGED << script, skip >>
         [] ev.op = "res" ->
              /\ L' = LinRespond(L, ev.t, ev.r)
              /\ UNCHANGED script
              /\ skip' = (L' = {})
              /\ (L' = {} /\ Followed(l)) => PrintT(<< "VIOL", "C22", script, l, "no sequential order of the operations explains: " \o ev.r.v >>)

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
