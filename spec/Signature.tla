------------------------------ MODULE Signature ------------------------------
(***************************************************************************)
(* Function signatures: what their traits are, which of them can be        *)
(* overloads of each other, and which overload a call selects.             *)
(* r: result, ps: parameters, va: C-variadic, c: const, ref: 0 none, 1 &,  *)
(* 2 &&, nx: noexcept.  Types are names (see lib/signature.py).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Quals == [va : BOOLEAN, c : BOOLEAN, ref : 0..2, nx : BOOLEAN]
Make(r, ps, q) == [r |-> r, ps |-> ps, va |-> q.va, c |-> q.c, ref |-> q.ref, nx |-> q.nx]

\* the type of a parameter: arrays and functions become pointers, const of the parameter itself is dropped
Adjusted(p) == CASE p = "const int" -> "int" [] p = "int[3]" -> "int*" [] p = "int(int)" -> "int(*)(int)"
                 [] p = "int* const" -> "int*" [] p = "const T[2]" -> "const T*" [] OTHER -> p
Type(s) == [s EXCEPT !.ps = [i \in DOMAIN s.ps |-> Adjusted(s.ps[i])]]

\* of types
AddNoexcept(s) == [s EXCEPT !.nx = TRUE]
RemoveNoexcept(s) == [s EXCEPT !.nx = FALSE]
Decay(s) == [s EXCEPT !.c = FALSE, !.ref = 0, !.nx = FALSE]

\* [over.load], [over.dcl]
SameParams(a, b) == a.ps = b.ps /\ a.va = b.va
Overloadable(a, b) ==
    \/ ~SameParams(a, b)
    \/ /\ (a.ref = 0) = (b.ref = 0)
       /\ << a.c, a.ref >> # << b.c, b.ref >>
OverloadSet(ss) == \A i, j \in DOMAIN ss : i < j => Overloadable(ss[i], ss[j])

\* [over.ics.rank]: the overload that a call on an object selects, the arguments being exactly the parameters; 0: none
Objects == {"l", "cl", "r", "cr"}
Viable(s, o) ==
    CASE s.ref = 0 -> s.c \/ o \in {"l", "r"}
      [] s.ref = 1 -> o = "l" \/ s.c
      [] OTHER -> o = "r" \/ (o = "cr" /\ s.c)
Better(a, b, o) ==   \* the implicit object parameter of a is bound better than that of b
    \/ o \in {"r", "cr"} /\ a.ref = 2 /\ b.ref = 1
    \/ ~a.c /\ b.c /\ ~(o \in {"r", "cr"} /\ a.ref = 1 /\ b.ref = 2)
Selected(ss, o, ps) ==
    LET v == { i \in DOMAIN ss : ss[i].ps = ps /\ ~ss[i].va /\ Viable(ss[i], o) }
        best == { i \in v : \A j \in v \ {i} : Better(ss[i], ss[j], o) }
    IN IF Cardinality(best) = 1 THEN CHOOSE i \in best : TRUE ELSE 0
\* M may throw when it is moved or copied, which a call with arguments of that type does
CallNoexcept(ss, o, ps) == LET k == Selected(ss, o, ps) IN k # 0 /\ ss[k].nx /\ \A i \in DOMAIN ps : ps[i] # "M"
Calls(ss, o, ps) == LET k == Selected(ss, o, ps) IN IF k = 0 THEN "-" ELSE ss[k].r
=============================================================================
