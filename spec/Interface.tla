------------------------------ MODULE Interface ------------------------------
(***************************************************************************)
(* Two objects of a mocked interface with many overloads (harness/iface).  *)
(* An overload has a constness, parameters and a result:                   *)
(*   i int   s const string&   T T   R T&   C const T&   V T&&   p          *)
(*   unique_ptr<T>   m map   q T*   k const T*   r const int&&   P pair     *)
(*   v void                                                                *)
(* Every method has a mock of its own; an expectation belongs to an object *)
(* and an overload and takes calls of that overload, through whichever     *)
(* interface, only.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ov(c, ps, r, nx) == [c |-> c, ps |-> ps, r |-> r, nx |-> nx]
i12 == << "i", "i", "i", "i", "i", "i", "i", "i", "i", "i", "i", "i" >>

\* number 0 first
Table == << Ov(0, << >>, "v", FALSE), Ov(0, <<"i">>, "i", FALSE), Ov(0, <<"i">>, "i", FALSE), Ov(1, <<"i">>, "i", FALSE),
            Ov(0, <<"s">>, "i", FALSE), Ov(0, <<"s", "i">>, "i", TRUE), Ov(1, << >>, "i", TRUE),
            Ov(0, <<"R", "C", "V">>, "R", FALSE), Ov(1, <<"R">>, "C", FALSE), Ov(0, <<"T", "p">>, "T", FALSE), Ov(0, <<"V">>, "V", FALSE),
            Ov(0, <<"i">>, "i", FALSE), Ov(1, <<"i">>, "i", FALSE), Ov(0, <<"i">>, "i", TRUE), Ov(1, <<"i">>, "i", TRUE),
            Ov(0, <<"m", "i">>, "P", FALSE), Ov(1, <<"m">>, "P", FALSE), Ov(0, i12, "i", FALSE), Ov(1, SubSeq(i12, 1, 11), "i", FALSE),
            Ov(0, <<"i", "T", "i", "T">>, "T", FALSE),
            Ov(0, <<"i">>, "v", FALSE), Ov(0, <<"i", "i">>, "v", FALSE), Ov(0, <<"i", "i", "i">>, "v", FALSE), Ov(1, <<"i">>, "v", FALSE),
            Ov(1, <<"i", "i">>, "v", FALSE), Ov(1, <<"s">>, "v", FALSE), Ov(1, <<"R">>, "v", TRUE),
            Ov(0, <<"i">>, "i", FALSE), Ov(1, <<"i">>, "i", FALSE), Ov(0, <<"p">>, "p", FALSE), Ov(1, <<"q">>, "v", FALSE),
            Ov(0, <<"k">>, "v", FALSE), Ov(0, << >>, "v", FALSE), Ov(0, <<"m">>, "i", FALSE), Ov(1, <<"i", "i">>, "i", FALSE),
            Ov(1, << >>, "C", TRUE), Ov(0, <<"r">>, "T", FALSE),
            Ov(0, [k \in 1..40 |-> "i"], "i", FALSE), Ov(1, <<"m", "i", "m">>, "P", TRUE) >>
Ovs == 0 .. Len(Table) - 1
Params(o) == Table[o + 1].ps
Arity(o) == Len(Params(o))
NoThrow(o) == Table[o + 1].nx

None == [obj |-> -1]
XSlots == 0..7
S0 == [e |-> [x \in XSlots |-> None], ord |-> << >>]      \* ord: slots, oldest first
Live(S) == { x \in XSlots : S.e[x].obj # -1 }

Accepts(e, obj, o, vals) == e.obj = obj /\ e.o = o /\ \A i \in DOMAIN vals : e.pats[i] \in {-1, vals[i]}
Positions(S, P(_)) == { k \in DOMAIN S.ord : P(S.e[S.ord[k]]) }
Max(A) == CHOOSE a \in A : \A b \in A : b <= a

\* an argument as the side effect sees it: which of the caller's objects, and its value
Seen(o, i, v) == << IF Params(o)[i] \in {"i", "T", "m"} THEN -1 ELSE i - 1, v >>
Kept(o, i, v, handled) ==
    CASE Params(o)[i] \in {"R", "V"} -> IF handled THEN v + 1000 ELSE v
      [] Params(o)[i] = "C" -> v
      [] Params(o)[i] = "T" -> -999      \* moved into the call
      [] OTHER -> 0
ResultOf(o, e) ==
    IF e.fin = 1 THEN << -1, e.res >>
    ELSE CASE Table[o + 1].r = "v" -> << -2, 0 >>
           [] Table[o + 1].r \in {"R", "C", "V", "p"} -> << 90, e.res >>
           [] OTHER -> << -1, e.res >>

CallOp(S, obj, o, vals) ==
    LET any == Positions(S, LAMBDA e : Accepts(e, obj, o, vals))
        usable == Positions(S, LAMBDA e : Accepts(e, obj, o, vals) /\ e.n < e.lim)
        after(h) == [i \in DOMAIN vals |-> Kept(o, i, vals[i], h)]
        miss(v) == [S |-> S, verdict |-> v, x |-> -1, obs |-> << >>, res |-> << -2, 0 >>, after |-> after(FALSE), reports |-> 0]
    IN IF usable # {} THEN
           LET x == S.ord[Max(usable)] e == S.e[x] IN
           [S |-> [S EXCEPT !.e[x].n = @ + 1], verdict |-> IF e.fin = 1 THEN "ex" ELSE "ok", x |-> x,
            obs |-> [i \in DOMAIN vals |-> Seen(o, i, vals[i])], res |-> ResultOf(o, e), after |-> after(TRUE), reports |-> 1]
       ELSE IF any # {} THEN miss("inapp") ELSE miss("none")

AddOp(S, x, obj, o, lim, fin, res, pats) ==
    [S EXCEPT !.e[x] = [obj |-> obj, o |-> o, lim |-> lim, fin |-> fin, res |-> res, pats |-> pats, n |-> 0], !.ord = Append(@, x)]
EndOp(S, x) == [S EXCEPT !.e[x] = None, !.ord = SelectSeq(@, LAMBDA y : y # x)]
=============================================================================
