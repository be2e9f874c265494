----------------------------- MODULE MCSignature -----------------------------
(***************************************************************************)
(* Enumerates signatures, pairs and sets of them.  A state is an item, its *)
(* only transition ends it.                                                *)
(***************************************************************************)
EXTENDS Signature, Json, IOUtils

Fam == IOEnv.FAM
Wide == IOEnv.WIDE = "1"

Q == Quals
Plain == { q \in Quals : ~q.va }
NoNx == { q \in Plain : ~q.nx }

Rets == {"void", "int", "T", "T&", "const T&", "T&&", "const T", "T*", "const T&&", "Ptr", "int(&)[3]", "bool", "M", "M&&"}
One == {"M", "const M&", "int", "bool", "T", "T&", "const T&", "T&&", "const T&&", "T*", "const T*", "T* const&", "Ptr", "const int", "int* const", "int[3]", "const T[2]",
        "int(int)", "int(&)[3]", "volatile int&"}
Long == { << "int", "T" >>, << "T", "int" >>, << "T&", "T" >>, << "T&", "T&" >>, << "const T&", "T&&" >>, << "const int", "int[3]" >>,
          << "int", "int", "int" >>, << "T&&", "T&", "const T&" >>, << "Ptr", "int", "Ptr" >>,
          << "int", "bool", "T", "T&", "const T&", "T&&", "T*" >>,
          [i \in 1..12 |-> "int"], [i \in 1..12 |-> IF i % 3 = 0 THEN "T&" ELSE IF i % 3 = 1 THEN "Ptr" ELSE "const T&&"] }
Shapes == { << >> } \union { << p >> : p \in One } \union Long

Ones == { << Make("int", ps, q) >> : ps \in Shapes, q \in Q } \union { << Make(r, ps, q) >> : r \in Rets, ps \in { << >>, << "T", "int" >> }, q \in Q }
        \union (IF Wide THEN { << Make(r, ps, q) >> : r \in Rets, ps \in Shapes, q \in Q } ELSE {})

\* parameters that are the same, that are the same after adjustment, that differ in a detail
ParamPairs == { << << >>, << >> >>, << <<"T">>, <<"T">> >>, << << >>, <<"int">> >>, << <<"int">>, <<"const int">> >>, << <<"int*">>, <<"int[3]">> >>,
                << <<"int(int)">>, <<"int(*)(int)">> >>, << <<"T">>, <<"T&">> >>, << <<"T&">>, <<"const T&">> >>, << <<"T&">>, <<"T&&">> >>,
                << <<"int", "T">>, <<"T", "int">> >>, << <<"T", "int">>, <<"T">> >>, << <<"int*">>, <<"int* const">> >>, << <<"T*">>, <<"const T*">> >>,
                << [i \in 1..12 |-> "int"], [i \in 1..12 |-> IF i = 12 THEN "bool" ELSE "int"] >>, << <<"int", "int">>, <<"int", "const int">> >> }
Pairs == { << Make("int", p[1], a), Make(r, p[2], b) >> : p \in (IF Wide THEN ParamPairs ELSE { << <<"T">>, <<"T">> >>, << <<"int*">>, <<"int[3]">> >>, << <<"T&">>, <<"T&&">> >> }),
           r \in {"int", "void"}, a \in Plain, b \in Plain }
         \union { << Make("int", p[1], a), Make(r, p[2], b) >> : p \in ParamPairs, r \in {"void"}, a \in NoNx, b \in NoNx }

\* overload sets: any three signatures; more of them are drawn at random, half of the draws avoid conflicts
Names == << << "int", "T", "bool", "T&", "const T", "T*" >>, << "M", "void", "Ptr", "const T&&", "M&", "M&&" >> >>
Named(n, s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.r = Names[n][i]]]
P2 == { << >>, << "int" >> }
Threes == { Named(n, << Make("int", p1, a), Make("int", p2, b), Make("int", p3, c) >>) : p1 \in P2, p2 \in P2, p3 \in P2, a \in NoNx, b \in NoNx, c \in NoNx, n \in 1..2 }
Pick(A) == RandomElement(A)
SetParams == { << >>, << "int" >>, << "T" >>, << "int", "int" >>, << "int", "T" >>, << "const int" >>, << "T", "T", "T" >>, << "M" >>, << "T", "M" >> }
Full == 6

\* mocks of a single signature: each result and each parameter list with all qualifiers
Singles == { << Make(r, << >>, q) >> : r \in Rets, q \in Plain } \union { << Make("int", ps, q) >> : ps \in Shapes, q \in Plain }
           \union (IF Wide THEN { << Make(r, ps, q) >> : r \in Rets, ps \in Shapes, q \in Plain } ELSE {})

VARIABLES ss, clean, names
vars == << ss, clean, names >>

Init == names \in (IF Fam = "set" THEN 1..2 ELSE {1}) /\
        CASE Fam = "one" -> ss \in Ones /\ clean = FALSE
          [] Fam = "pair" -> ss \in Pairs /\ clean = FALSE
          [] Fam = "single" -> ss \in Singles /\ clean = FALSE
          [] Fam = "three" -> ss \in Threes /\ clean = FALSE
          [] Fam = "set" -> ss = << >> /\ clean \in BOOLEAN
\* a signature joins the set
Next ==
    /\ Fam = "set" /\ Len(ss) < Full
    /\ UNCHANGED << clean, names >>
    /\ \E t \in { [Make("int", Pick(SetParams), Pick(Plain)) EXCEPT !.r = Names[names][Len(ss) + 1]] } :
         ss' = IF clean /\ ~OverloadSet([i \in 1 .. Len(ss) + 1 |-> Type(Append(ss, t)[i])]) THEN ss ELSE Append(ss, t)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Types == [i \in DOMAIN ss |-> Type(ss[i])]
Traits == \A i \in DOMAIN ss :
    LET s == Types[i] IN
    /\ RemoveNoexcept(AddNoexcept(s)) = RemoveNoexcept(s) /\ AddNoexcept(AddNoexcept(s)) = AddNoexcept(s)
    /\ Decay(Decay(s)) = Decay(s) /\ Decay(AddNoexcept(s)) = Decay(s)
    /\ Type(s) = s
Relation == \A i, j \in DOMAIN ss :
    /\ Overloadable(Types[i], Types[j]) = Overloadable(Types[j], Types[i])
    /\ ~Overloadable(Types[i], Types[i])
    /\ Overloadable(AddNoexcept(Types[i]), Types[j]) = Overloadable(RemoveNoexcept(Types[i]), Types[j])
Lists == { Types[i].ps : i \in { k \in DOMAIN ss : ~Types[k].va } }
\* calls of an overload set with exact arguments are never ambiguous
Unambiguous == OverloadSet(Types) => \A o \in Objects, ps \in Lists :
    (\E i \in DOMAIN ss : Types[i].ps = ps /\ ~Types[i].va /\ Viable(Types[i], o)) <=> Selected(Types, o, ps) # 0

Item == [fam |-> IF Fam \in {"one", "pair"} THEN Fam ELSE "set", ss |-> ss]
Ready == (Fam # "set" \/ Len(ss) >= 2)
Emit == Ready => PrintT("SCRIPT " \o ToJson(Item))
=============================================================================
