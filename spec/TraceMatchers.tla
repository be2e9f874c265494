---------------------------- MODULE TraceMatchers ----------------------------
(* Validates traces of harness/matchers against Matchers. *)
EXTENDS Matchers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES d, slots, l, script
vars == << d, slots, l, script >>

Init == d = << >> /\ slots = << >> /\ l = 1 /\ script = 0

Chk(ok, p, why) == IF ok THEN {} ELSE { << p, why >> }
Report(bad) == \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)

Prop(k) == CASE k.fam = "cmp" -> "C15" [] k.fam = "str" -> "C16" [] OTHER -> "C17"

Def(ev) == [fam |-> ev.fam, kind |-> ev.kind, ty |-> ev.ty, ci |-> ev.ci, arg |-> ev.arg, eq |-> ev.eq, lt |-> ev.lt, cmp |-> ev.cmp]

TextBad(k, neg, text) == Chk(text = Text(k, neg), "C20", "description of a matcher")

TsBad(ev) ==
    UNION { IF slots[i].gone THEN {}
            ELSE UNION { LET r == ev.r[i][j] v == ev.vs[j] IN
                         Chk(r # 2, Prop(d), "a value was altered or equivalent targets disagree")
                         \union Chk(r = 2 \/ ((r = 1) <=> Accepts(d, slots[i], v)), Prop(d),
                                    IF slots[i].neg THEN "an inverted matcher decides wrongly" ELSE "a matcher decides wrongly")
                         : j \in DOMAIN ev.vs }
                 \union TextBad(d, slots[i].neg, ev.d[i])
            : i \in DOMAIN slots }

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> d' = << >> /\ slots' = << >> /\ script' = ev.id
         [] ev.op = "end" -> UNCHANGED << d, slots, script >>
         [] ev.op = "new" -> d' = Def(ev) /\ slots' = Fresh /\ Report(TextBad(Def(ev), FALSE, ev.d)) /\ UNCHANGED script
         [] ev.op = "inv" -> /\ slots' = Inverted(slots, ev.i, ev.moved = 1)
                             /\ Report(TextBad(d, ~slots[ev.i].neg, ev.d)) /\ UNCHANGED << d, script >>
         [] ev.op = "dup" -> /\ slots' = Duplicated(slots, ev.i, ev.moved = 1)
                             /\ Report(TextBad(d, slots[ev.i].neg, ev.d)) /\ UNCHANGED << d, script >>
         [] ev.op = "ts" -> Report(TsBad(ev)) /\ UNCHANGED << d, slots, script >>

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
