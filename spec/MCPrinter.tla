----------------------------- MODULE MCPrinter -----------------------------
(***************************************************************************)
(* Values for harness/printer: for every type all small values.  A type is *)
(* a term, a value a pair of the numbers that the harness builds it from   *)
(* and its tree.  FAM selects a part of the types.                         *)
(***************************************************************************)
EXTENDS Printer, Json, IOUtils

Wide == IOEnv.WIDE = "1"
Part == IOEnv.FAM

I == << "leaf", 8 >>
B == << "leaf", 2 >>
Ch == << "leaf", 12 >>
D == << "leaf", 5 >>
St == << "str" >>
CP == << "cptr" >>
P == << "ptr" >>
Opt(t) == << "opt", t >>
Tup(ts) == << "tup", ts >>
Vec(t) == << "vec", t >>
W == << "wstr" >>
CW == << "cwptr" >>
U == << "user", "u" >>
F == << "user", "f" >>
N == << "user", "?" >>
Loc == << "leaf", 3 >>

Strings == << I, B, Ch, << "leaf", 4 >>, D, << "leaf", 4 >>, St, St, CP, CP, W, W, W, CW, CW, St, << "cs" >>, << "cs" >>, W, W >>
Tuples == << P, P, P, P, << "null" >>, << "opaque", 2, I >>, Opt(I), Opt(Opt(I)), Opt(St), << "null" >>,
             Tup(<< >>), Tup(<< I >>), Tup(<< I, St, B >>), Tup(<< I, Opt(I) >>), Tup(<< I, I, I >>), Tup(<< >>), Opt(CP), Tup(<< CP, P >>),
             Tup(<< Tup(<< >>), Tup(<< I, Ch >>) >>), Opt(Tup(<< I, D >>)) >>
Ranges == << Vec(I), Vec(Vec(I)), Vec(St), Vec(I), Vec(Tup(<< I, St >>)), Vec(Opt(I)), Vec(I), Vec(Tup(<< I, Ch >>)), Vec(P), Vec(CP),
             Vec(Vec(Tup(<< I, Vec(Opt(St)) >>))), Vec(St), Vec(Tup(<< St, Vec(P) >>)), Vec(W), Vec(Vec(Vec(Ch))) >>
Users == << U, Vec(U), Opt(U), Vec(I), Tup(<< I, I >>), F, Vec(F), Vec(I), Opt(F), N, Vec(N), Tup(<< N, I >>), Tup(<< N, U >>), Opt(N),
            << "leaf", 3 >>, << "leaf", 5 >>, << "leaf", 3 >>, << "leaf", 3 >>, Loc, Opt(Loc), << "opaque", 2, I >>, Vec(Tup(<< U, Vec(N) >>)), Vec(Vec(I)),
            Vec(<< "leaf", 5 >>), Tup(<< I, I, I >>), Tup(<< St, St >>), Tup(<< Tup(<< I, I >>), Tup(<< I, I >>) >>), St, W, << "leaf", 4 >>, Vec(I), << "null" >>, Vec(I), Vec(St) >>
UC == << "ustr" >>
O == << "leaf", 1 >>   \* one value only
More == << Opt(B), Opt(Ch), Tup(<< I, B, O, St, O, O, B, O, I, O, B >>), Tup(<< I, B, O, B, O, O, I >>), UC, Vec(UC), Opt(UC), Tup(<< UC, I, UC >>), Tup(<< I, St >>),
           Vec(<< "opaque", 2, I >>), Vec(Tup(<< St, Tup(<< UC, B >>) >>)) >>
Types == Strings \o Tuples \o Ranges \o Users \o More
Parts == CASE Part = "strings" -> 1..20 [] Part = "tuples" -> 21..40 [] Part = "ranges" -> 41..55 [] Part = "users" -> 56..89 [] Part = "more" -> 90..100

Lists(V, n) == UNION { [1..k -> V] : k \in 0..n }
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Abc == << "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l" >>

RECURSIVE Vals(_, _)
RECURSIVE Product(_, _)
\* d: nesting so far
Vals(t, d) ==
    LET m == IF d < 2 THEN 2 ELSE 1 IN
    CASE t[1] = "leaf"   -> { << <<k>>, <<"n", ToString(k)>> >> : k \in 0 .. (IF d = 0 \/ (Wide /\ d = 1) THEN t[2] - 1 ELSE 1) }
      [] t[1] = "str"    -> { << <<Len(c), IF c = << >> THEN 0 ELSE c[1]>> \o (IF c = << >> THEN << >> ELSE Tail(c)), <<"s", Join([i \in DOMAIN c |-> Abc[c[i] + 1]], "")>> >> :
                                c \in Lists(IF d = 0 THEN 0..(IF Wide THEN 11 ELSE 4) ELSE IF Wide /\ d = 1 THEN 0..2 ELSE {1}, m) }
                            \union (IF d = 0 THEN { << <<5, 3>>, <<"s", "long">> >> } ELSE {})
      [] t[1] = "ustr"   -> { << v[1], <<"u", v[2][2]>> >> : v \in Vals(<<"str">>, d) }
      [] t[1] = "wstr"   -> { << <<Len(c), IF c = << >> THEN 0 ELSE c[1]>> \o (IF c = << >> THEN << >> ELSE Tail(c)), <<"w", "L", c>> >> :
                                c \in Lists(IF d = 0 THEN 0..(IF Wide THEN 9 ELSE 5) ELSE {0, 1}, m) }
      [] t[1] = "cs"     -> { << <<Len(c)>> \o c, <<"w", "", c>> >> : c \in Lists({0, 1, 16, 199}, m) }
      [] t[1] = "cptr"   -> { << <<0>>, <<"p", <<0, 0, 0, 0>> >> >> } \union { << <<1>> \o v[1], v[2] >> : v \in Vals(<<"str">>, d) }
      [] t[1] = "cwptr"  -> { << <<0>>, <<"p", <<0, 0, 0, 0>> >> >> } \union { << <<1>> \o v[1], v[2] >> : v \in Vals(<<"wstr">>, d) }
      [] t[1] = "ptr"    -> { << <<k>>, <<"p", <<0, 0, 0, k>> >> >> : k \in 0 .. (IF Wide \/ d = 0 THEN 6 ELSE 1) }
      [] t[1] = "null"   -> { << <<0>>, <<"n", "null">> >> }
      [] t[1] = "user"   -> { << <<k>>, <<t[2], ToString(k)>> >> : k \in 0 .. (IF Wide THEN 7 ELSE 1) }
      [] t[1] = "opaque" -> UNION { { << <<k>> \o v[1], <<"?", ToString(k)>> >> : v \in Vals(t[3], d + 1) } : k \in 0 .. (t[2] - 1) }
      [] t[1] = "opt"    -> { << <<0>>, <<"o", << >> >> >> } \union { << <<1>> \o v[1], <<"o", << v[2] >> >> >> : v \in Vals(t[2], d + 1) }
      [] t[1] = "tup"    -> { << p[1], <<"t", p[2]>> >> : p \in Product(t[2], d + 1) }
      [] t[1] = "vec"    -> { << <<Len(s)>> \o Flat([i \in DOMAIN s |-> s[i][1]]), <<"r", [i \in DOMAIN s |-> s[i][2]]>> >> :
                                s \in Lists(Vals(t[2], d + 1), IF Wide /\ d = 0 /\ t[2][1] = "leaf" THEN 3 ELSE m) }
Product(ts, d) ==
    IF ts = << >> THEN { << << >>, << >> >> }
    ELSE { << v[1] \o r[1], << v[2] >> \o r[2] >> : v \in Vals(Head(ts), d), r \in Product(Tail(ts), d) }

VARIABLES ty, val
vars == << ty, val >>
Init == ty \in Parts /\ val \in Vals(Types[ty], 0)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* different values have different texts, as far as they can be printed
Faithful == \A k \in Parts : LET whole == { x[2] : x \in { y \in Vals(Types[k], 0) : Complete(y[2]) } } IN
                                 Cardinality({ Printed(x) : x \in whole }) = Cardinality(whole)
ASSUME Faithful

Emit == PrintT("SCRIPT " \o ToJson(<< ty, val[1] >>))
=============================================================================
