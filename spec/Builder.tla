------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* Setting up one expectation: which elements it takes (positional         *)
(* arguments, then requirements, side effects, limits, sequences and       *)
(* finalizers in any order), and what the expectation then does in calls.  *)
(*                                                                         *)
(* Every value has a number: an int or double itself, a string its length, *)
(* a pointer what it points to, an object what it holds.  A call passes 1  *)
(* for every parameter.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* types: what is left without reference and const, and these
Base(t) == CASE t = "int&" -> "int" [] t = "const int&" -> "int" [] t = "const str&" -> "str" [] t = "S&" -> "S" [] t = "const S&" -> "S" [] t = "Up&&" -> "Up"
             [] OTHER -> t
IsConst(t) == t \in {"const int&", "const str&", "const S&"}
Ref(t) == CASE t \in {"int&", "const int&", "const str&", "S&", "const S&"} -> "l" [] t = "Up&&" -> "r" [] OTHER -> "-"

Sigs == << [r |-> "void", ps |-> << >>], [r |-> "int", ps |-> << >>], [r |-> "int", ps |-> << "int" >>], [r |-> "str", ps |-> << "int", "str" >>],
           [r |-> "int&", ps |-> << "int&" >>], [r |-> "Up", ps |-> << "Up" >>], [r |-> "void", ps |-> << "const str&" >>], [r |-> "void", ps |-> << "S" >>],
           [r |-> "double", ps |-> << "double", "int", "int" >>], [r |-> "str", ps |-> << "S&", "str" >>], [r |-> "int", ps |-> << "const int&", "Up&&" >>],
           [r |-> "S", ps |-> << "const S&" >>] >>

----------------------------------------------------------------------------
(* Expressions: base, const, category ("l" lvalue, "x" xvalue, "p" prvalue). *)
Number == {"int", "double"}
Expr(b, c, cat) == [b |-> b, c |-> c, cat |-> cat]
Lvalue(p) == Expr(Base(p), IsConst(p), "l")
Forwarded(p) == Expr(Base(p), IsConst(p), IF Ref(p) = "l" THEN "l" ELSE "x")
\* static_cast<r>(e)
ConvertsTo(e, r) ==
    CASE r = "void" -> TRUE
      [] r = "int&" -> e.b = "int" /\ ~e.c /\ e.cat = "l"
      [] r = "Up" -> e.b = "Up" /\ ~e.c /\ e.cat # "l"
      [] r = "int" -> e.b \in Number \union {"X"}           \* X has an explicit conversion to int
      [] r = "double" -> e.b \in Number
      [] OTHER -> e.b = r
\* whether a callable's parameter w takes an lvalue e
Takes(w, e) ==
    CASE w = "auto&" -> TRUE
      [] w = "int&" -> e.b = "int" /\ ~e.c
      [] w = "str&" -> e.b = "str" /\ ~e.c
      [] w = "int" -> e.b \in Number
      [] w = "const str&" -> e.b = "str"
      [] w = "str&&" -> FALSE

----------------------------------------------------------------------------
(* Matchers: which types they take, and whether they match the number 1. *)
MatcherTakes(m, b) ==
    CASE m \in {"_"} -> TRUE
      [] m \in {"eq1", "eq2", "lt2"} -> b \in Number
      [] m \in {"stra", "strb", "size1", "pred"} -> b = "str"
      [] m = "isS" -> b = "S"
MatcherHolds(m) == m \notin {"eq2", "strb"}

(* Positional arguments: values, strings, matchers. *)
Positionals == {"_", "1", "2", "1.0", "a", "b", "stra", "eq1", "streq", "S", "null"}
PositionalTakes(a, p) ==
    CASE a = "_" -> TRUE
      [] a \in {"1", "2", "1.0", "eq1"} -> Base(p) \in Number
      [] a \in {"a", "b", "stra", "streq"} -> Base(p) = "str"
      [] OTHER -> FALSE
PositionalHolds(a) == a \notin {"2", "b"}
CanExpect(s, pos) == Len(pos) = Len(s.ps) /\ \A i \in DOMAIN pos : PositionalTakes(pos[i], s.ps[i])

----------------------------------------------------------------------------
(* The elements. *)
Max == 2147483647
Times(a, b) == [k |-> "times", min |-> a, max |-> b]
In(ss) == [k |-> "seq", ss |-> ss]
Fin(f) == [k |-> "fin", f |-> f]
Req(i, m) == [k |-> "req", i |-> i, m |-> m]
\* a side effect: the parameters it gets, what its action takes for each, whether it changes them
Eff(is, ws, change) == [k |-> "eff", is |-> is, ws |-> ws, change |-> change]
All(ws, change) == [k |-> "all", ws |-> ws, change |-> change]
Own(how) == [k |-> "own", how |-> how]
Alien == [k |-> "alien"]

Items ==
    [t2 |-> Times(2, 2), t13 |-> Times(1, 3), atl1 |-> Times(1, Max), atm1 |-> Times(0, 1), never |-> Times(0, 0), once |-> Times(1, 1), twice |-> Times(2, 2),
     s1 |-> In(<< 1 >>), s2 |-> In(<< 2 >>), s12 |-> In(<< 1, 2 >>), g3 |-> In(<< 3 >>), s31 |-> In(<< 3, 1 >>),
     ret7 |-> Fin([k |-> "is", e |-> Expr("int", FALSE, "l"), v |-> 7]), rets |-> Fin([k |-> "is", e |-> Expr("str", FALSE, "l"), v |-> 7]),
     reto |-> Fin([k |-> "is", e |-> Expr("S", FALSE, "l"), v |-> 7]), retx |-> Fin([k |-> "is", e |-> Expr("X", FALSE, "l"), v |-> 7]),
     retr |-> Fin([k |-> "is", e |-> Expr("int", FALSE, "l"), v |-> 5]), retcr |-> Fin([k |-> "is", e |-> Expr("int", TRUE, "l"), v |-> 5]),
     res8 |-> Fin([k |-> "is", e |-> Expr("int", FALSE, "p"), v |-> 8]), ress |-> Fin([k |-> "is", e |-> Expr("str", FALSE, "p"), v |-> 8]),
     resu |-> Fin([k |-> "is", e |-> Expr("Up", FALSE, "p"), v |-> 8]), resr |-> Fin([k |-> "is", e |-> Expr("int", FALSE, "l"), v |-> 5]),
     resc |-> Fin([k |-> "is", e |-> Expr("str", TRUE, "l"), v |-> 8]), resx |-> Fin([k |-> "is", e |-> Expr("X", FALSE, "p"), v |-> 8]),
     arg0 |-> Fin([k |-> "arg", i |-> 1]), arg1 |-> Fin([k |-> "arg", i |-> 2]), arg2 |-> Fin([k |-> "arg", i |-> 3]),
     app0 |-> Fin([k |-> "same", i |-> 1]), app1 |-> Fin([k |-> "same", i |-> 2]),
     appi |-> Fin([k |-> "apply", is |-> << 1 >>, ws |-> << "int&" >>]), app10 |-> Fin([k |-> "apply", is |-> << 2, 1 >>, ws |-> << "auto&", "auto&" >>]),
     appv |-> Fin([k |-> "apply", is |-> << 2 >>, ws |-> << "const str&" >>]),
     appa |-> Fin([k |-> "all", ws |-> << >>]), appis |-> Fin([k |-> "all", ws |-> << "int&", "str&" >>]), appn |-> Fin([k |-> "all", ws |-> << "int" >>]),
     thr |-> Fin([k |-> "throw"]), ownf |-> Fin([k |-> "own"]),
     nou |-> Alien, nov |-> Alien, noe |-> Alien,                              \* what cannot be returned, thrown
     any0 |-> Req(1, "_"), any1 |-> Req(2, "_"), any2 |-> Req(3, "_"), any3 |-> Req(4, "_"),
     eq0 |-> Req(1, "eq1"), eq1 |-> Req(2, "eq1"), eq2 |-> Req(3, "eq1"), ne0 |-> Req(1, "eq2"), ne1 |-> Req(2, "eq2"), lt0 |-> Req(1, "lt2"),
     st0 |-> Req(1, "stra"), st1 |-> Req(2, "stra"), sn0 |-> Req(1, "strb"), sn1 |-> Req(2, "strb"), pr0 |-> Req(1, "size1"), pr1 |-> Req(2, "size1"),
     pd1 |-> Req(2, "pred"), so0 |-> Req(1, "isS"),
     inv |-> Eff(<< >>, << >>, FALSE), e0 |-> Eff(<< 1 >>, << "auto&" >>, TRUE), e1 |-> Eff(<< 2 >>, << "auto&" >>, TRUE), e2 |-> Eff(<< 3 >>, << "auto&" >>, TRUE),
     ei0 |-> Eff(<< 1 >>, << "int&" >>, TRUE), ev0 |-> Eff(<< 1 >>, << "int" >>, FALSE), ev1 |-> Eff(<< 2 >>, << "int" >>, FALSE), es0 |-> Eff(<< 1 >>, << "const str&" >>, FALSE),
     es1 |-> Eff(<< 2 >>, << "const str&" >>, FALSE), er0 |-> Eff(<< 1 >>, << "str&&" >>, FALSE), er1 |-> Eff(<< 2 >>, << "str&&" >>, FALSE),
     e01 |-> Eff(<< 1, 2 >>, << "auto&", "auto&" >>, TRUE), e10 |-> Eff(<< 2, 1 >>, << "auto&", "int&" >>, FALSE), e212 |-> Eff(<< 3, 2, 3 >>, << "auto&", "auto&", "auto&" >>, FALSE),
     ea |-> All(<< >>, TRUE), eai |-> All(<< "int" >>, FALSE), eais |-> All(<< "int&", "str&" >>, TRUE),
     own |-> Own("any"), owni |-> Own("int"), owno |-> Own("two"), ownn |-> Own("no"), num |-> Alien, obj |-> Alien, fun |-> Alien]
Names == DOMAIN Items

----------------------------------------------------------------------------
(* What fits.  st: [times, fin : BOOLEAN] what is there already. *)
Empty == [times |-> FALSE, fin |-> FALSE]
Fold(st, n) == [times |-> st.times \/ Items[n].k = "times", fin |-> st.fin \/ Items[n].k = "fin"]
AllTake(s, ws) == IF ws = << >> THEN TRUE ELSE Len(ws) = Len(s.ps) /\ \A i \in DOMAIN ws : Takes(ws[i], Lvalue(s.ps[i]))
ActionTakes(s, is, ws) == \A k \in DOMAIN is : is[k] <= Len(s.ps) /\ Takes(ws[k], Lvalue(s.ps[is[k]]))
IntResult == Expr("int", FALSE, "p")
FinalizerFits(s, f) ==
    CASE f.k = "is" -> ConvertsTo(f.e, s.r)
      [] f.k = "arg" -> f.i <= Len(s.ps) /\ ConvertsTo(Forwarded(s.ps[f.i]), s.r)
      [] f.k = "same" -> f.i <= Len(s.ps) /\ ConvertsTo(Lvalue(s.ps[f.i]), s.r)
      [] f.k = "apply" -> ActionTakes(s, f.is, f.ws) /\ ConvertsTo(IntResult, s.r)
      [] f.k = "all" -> AllTake(s, f.ws) /\ ConvertsTo(IntResult, s.r)
      [] f.k = "throw" -> TRUE
      [] f.k = "own" -> s.r = "int"
Fits(s, st, n) ==
    LET it == Items[n] IN
    CASE it.k = "times" -> ~st.times
      [] it.k = "seq" -> TRUE
      [] it.k = "fin" -> ~st.fin /\ FinalizerFits(s, it.f)
      [] it.k = "req" -> it.i <= Len(s.ps) /\ MatcherTakes(it.m, Base(s.ps[it.i]))
      [] it.k = "eff" -> ActionTakes(s, it.is, it.ws)
      [] it.k = "all" -> AllTake(s, it.ws)
      [] it.k = "own" -> (CASE it.how \in {"any", "no"} -> TRUE [] it.how = "int" -> s.r = "int" [] it.how = "two" -> Len(s.ps) = 2)
      [] OTHER -> FALSE
RECURSIVE State(_, _)
State(path, n) == IF n = 0 THEN Empty ELSE Fold(State(path, n - 1), path[n])
Acceptable(s, path) == \A n \in DOMAIN path : Fits(s, State(path, n - 1), path[n])
Accepted(s, path) == { n \in Names : Fits(s, State(path, Len(path)), n) }
\* a result is needed
Complete(s, path) == s.r = "void" \/ State(path, Len(path)).fin

----------------------------------------------------------------------------
(* What an expectation does. *)
Of(path, kinds) == SelectSeq(path, LAMBDA n : Items[n].k \in kinds)
Limits(path) == LET t == Of(path, {"times"}) IN IF t = << >> THEN << 1, 1 >> ELSE << Items[t[1]].min, Items[t[1]].max >>
RECURSIVE Memberships(_)
Memberships(path) == IF path = << >> THEN << >> ELSE (IF Items[path[1]].k = "seq" THEN Items[path[1]].ss ELSE << >>) \o Memberships(Tail(path))
\* one expectation can be part of a sequence only once
Valid(path) == LET m == Memberships(path) IN \A i, j \in DOMAIN m : m[i] = m[j] => i = j

Holds(n) == CASE Items[n].k = "req" -> MatcherHolds(Items[n].m) [] Items[n].k = "own" -> Items[n].how # "no" [] OTHER -> TRUE
\* the requirements, as listed in a report: positional, (category, constness), then everything else in the order of writing
Verdicts(pos, path) == [i \in DOMAIN pos |-> PositionalHolds(pos[i])] \o << TRUE, TRUE >>
                       \o LET ps == Of(path, {"req", "eff", "all", "own"}) IN [i \in DOMAIN ps |-> Holds(ps[i])]
Matching(pos, path) == \A i \in DOMAIN Verdicts(pos, path) : Verdicts(pos, path)[i]

RECURSIVE Sum(_)
Sum(vs) == IF vs = << >> THEN 0 ELSE vs[1] + 10 * Sum(Tail(vs))
RECURSIVE Bumped(_, _, _)
Bumped(s, vs, is) == IF is = << >> THEN vs
                     ELSE Bumped(s, IF IsConst(s.ps[is[1]]) THEN vs ELSE [vs EXCEPT ![is[1]] = @ + 1], Tail(is))
Range(n) == [i \in 1..n |-> i]
\* << values, log >> after a policy has been consumed
Consumed(s, vs, log, n) ==
    LET it == Items[n] is == IF it.k = "all" THEN Range(Len(s.ps)) ELSE IF it.k = "eff" THEN it.is ELSE << >> IN
    CASE it.k \in {"eff", "all"} -> << IF it.change THEN Bumped(s, vs, is) ELSE vs, Append(log, << n, Sum([k \in DOMAIN is |-> vs[is[k]]]) >>) >>
      [] it.k = "own" -> << vs, Append(log, << n, 0 >>) >>
      [] OTHER -> << vs, log >>
RECURSIVE After(_, _, _)
After(s, path, n) == IF n = 0 THEN << [i \in DOMAIN s.ps |-> 1], << >> >> ELSE LET a == After(s, path, n - 1) IN Consumed(s, a[1], a[2], path[n])

Result(s, path, vs) ==
    LET fs == Of(path, {"fin"}) IN
    IF fs = << >> THEN "none" ELSE
    LET f == Items[fs[1]].f IN
    IF f.k = "throw" THEN "thrown" ELSE
    IF s.r = "void" THEN "none" ELSE
    ToString(CASE f.k = "is" -> f.v
               [] f.k \in {"arg", "same"} -> vs[f.i]
               [] f.k = "apply" -> Sum([k \in DOMAIN f.is |-> vs[f.is[k]]])
               [] f.k = "all" -> Sum(vs)
               [] f.k = "own" -> 9)
\* what the caller's objects are afterwards: only parameters that are lvalue references can change them
CallerSees(s, vs) == [i \in DOMAIN vs |-> IF Ref(s.ps[i]) = "l" THEN vs[i] ELSE 1]
NoCall(s) == [i \in DOMAIN s.ps |-> 1]

\* the n-th call, all former ones having been like this
Call(s, pos, path, n) ==
    LET lim == Limits(path) a == After(s, path, Len(path))
        count == IF ~Matching(pos, path) THEN 0 ELSE IF n - 1 < lim[2] THEN n - 1 ELSE lim[2]
        what == IF ~Matching(pos, path) THEN "none" ELSE IF count = lim[2] THEN "inapplicable" ELSE "full"
    IN [what |-> what, verdicts |-> Verdicts(pos, path),
        control |-> IF count = lim[2] THEN << "saturated", lim[1], lim[2], count, Len(Memberships(path)) >>
                    ELSE << "applicable", lim[1], lim[2], count, Len(Memberships(path)) >>,
        res |-> IF what = "full" THEN Result(s, path, a[1]) ELSE "rejected",
        log |-> IF what = "full" THEN a[2] ELSE << >>,
        after |-> IF what = "full" THEN CallerSees(s, a[1]) ELSE NoCall(s)]
Count(pos, path, calls) == IF ~Matching(pos, path) THEN 0 ELSE IF calls < Limits(path)[2] THEN calls ELSE Limits(path)[2]
\* satisfied after that many calls; own policies have to be consumed once
Satisfied(pos, path, calls) ==
    LET c == Count(pos, path, calls) IN c >= Limits(path)[1] /\ c <= Limits(path)[2] /\ (Of(path, {"own"}) = << >> \/ c > 0)

\* the whole history of an expectation
Calls == 3
Created(path) == IF Valid(path) THEN "ok" ELSE "invalid_argument"
History(s, pos, path) ==
    IF ~Valid(path) THEN << >> ELSE [n \in 1..Calls |-> Call(s, pos, path, n) @@ [sat |-> Satisfied(pos, path, n)]]
End(pos, path) == IF ~Valid(path) \/ Satisfied(pos, path, Calls) THEN "fulfilled" ELSE "unfulfilled"
=============================================================================
