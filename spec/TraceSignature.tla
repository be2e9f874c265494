--------------------------- MODULE TraceSignature ---------------------------
(* Validates traces of harness/signature against Signature. *)
EXTENDS Signature, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, script
vars == << l, script >>

Init == l = 1 /\ script = 0
Chk(ok, p, why) == IF ok THEN {} ELSE { << p, why >> }
Report(bad) == \A b \in bad : PrintT(<< "VIOL", b[1], script, l, b[2] >>)

OneBad(ev) ==
    LET s == Type(ev.s) IN
    Chk(ev.type = s, "HARNESS", "the signature itself")
    \union Chk(ev.add = AddNoexcept(s), "C24", "signature_add_noexcept")
    \union Chk(ev.rem = RemoveNoexcept(s), "C24", "signature_remove_noexcept")
    \union Chk(ev.dec = Decay(s), "C24", "signature_decay")
    \union Chk(ev.ret = s.r, "C24", "signature_return_type")
    \union (IF s.va THEN {} ELSE Chk(ev.ps = s.ps, "C24", "signature_param_type") \union Chk(ev.list = s.ps, "C24", "signature_param_list")
                                 \union Chk(ev.info = << s.r >> \o s.ps, "C24", "info_for_signature"))

SetBad(ev) ==
    LET ss == [i \in DOMAIN ev.ss |-> Type(ev.ss[i])] ok == OverloadSet(ss) IN
    Chk(ev.over = [i \in DOMAIN ss |-> [j \in DOMAIN ss |-> Overloadable(ss[i], ss[j])]], "C24", "is_overloadable_with")
    \union Chk(ev.set = ok, "C24", "is_overload_set")
    \union Chk(ev.mock = ok, "C24", "signatures that may share a mock")
    \union (IF ~ok THEN {}
            ELSE UNION { Chk(c.res = << Calls(ss, "l", c.ps), Calls(ss, "cl", c.ps), Calls(ss, "r", c.ps), Calls(ss, "cr", c.ps) >>,
                             "C30", "what a call of the mock selects")
                         \union Chk(c.nx = [k \in 1..4 |-> CallNoexcept(ss, << "l", "cl", "r", "cr" >>[k], c.ps)],
                                    "C30", "whether a call of the mock is noexcept")
                         \union Chk(c.exp = [k \in 1..4 |-> Selected(ss, << "l", "cl", "r", "cr" >>[k], c.ps) # 0],
                                    "C30", "whether the mock takes an expectation")
                         : c \in { ev.calls[k] : k \in DOMAIN ev.calls } })

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> script' = ev.id
         [] ev.op = "end" -> UNCHANGED script
         [] ev.op = "one" -> Report(OneBad(ev)) /\ UNCHANGED script
         [] ev.op = "set" -> Report(SetBad(ev)) /\ UNCHANGED script

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
