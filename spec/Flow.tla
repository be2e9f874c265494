-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* The flow of one call's arguments through requirements, side effects and *)
(* finalizer of the expectation that handles it.                           *)
(*                                                                         *)
(* A call is a small transition system: phase "match" -> one "eff" step    *)
(* per side effect, in the order of attachment -> "fin" -> "done".  Its    *)
(* state holds the current value of each argument object.                  *)
(*                                                                         *)
(* Identities: 0..2 objects of the caller, 40 an object outside, -1 none.  *)
(* ANY stands for an object made by the library or compiler for this call  *)
(* (a parameter passed by value) or the value stored in the expectation.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ANY == 99

\* parameters by signature: val T, lref T&, clref const T&, rref T&&, crref const T&&, ptr T*, uptr unique_ptr<T>
Params == << << "val", "clref", "rref" >>,
             << "lref", "lref", "clref" >>,
             << "clref", "clref", "lref" >>,
             << "rref", "lref", "val" >>,
             << "uptr", "ptr", "clref" >>,
             << "lref", "rref", "clref" >>,
             << "lref", "crref", "val" >> >>
\* result: val T by value, ref a reference, uptr, void, int
Result == << "val", "ref", "ref", "ref", "uptr", "void", "int" >>
Sigs == 1..7

Mutable(p) == p \in {"val", "lref", "rref", "ptr", "uptr"}
ByRef(p) == p # "val"

\* requirements and side effects of a chain, in the order of attachment:
\*   req k arg proj: a requirement on one argument ("neg": projected to the negated value, "id": projected to itself)
\*   tag k: custom policy, sees all arguments while matching and on consumption
\*   eff k args: side effect receiving the listed arguments, adds delta[k] to each one it may change, and one more with
\*              every earlier run: functors keep their state from call to call
\*   inv k: side effect without arguments, tells how often it ran
R(k, a, proj) == [t |-> "req", k |-> k, args |-> << a >>, proj |-> proj]
E(k, as) == [t |-> "eff", k |-> k, args |-> as, proj |-> ""]
Chains == << << >>,
             << R(1, 1, ""), R(2, 0, "neg"), R(3, 2, "id"), E(4, << 0 >>), E(5, << 2 >>), E(6, << 2, 0 >>), E(7, << 0, 1, 2 >>) >>,
             << E(1, << 0, 1, 2 >>), E(2, << 1, 2, 0 >>), E(3, << 1 >>), E(4, << 0, 0 >>),
                [t |-> "inv", k |-> 5, args |-> << >>, proj |-> ""], R(6, 2, "") >>,
             << E(1, << 0, 1 >>), [t |-> "tag", k |-> 2, args |-> << 0, 1, 2 >>, proj |-> ""], E(3, << 2, 1, 0, 2 >>), E(4, << 2 >>) >>,
             << E(1, << 2 >>), R(2, 0, ""), E(3, << 0 >>), R(4, 1, "neg"), R(5, 2, ""), E(6, << 1, 0 >>),
                [t |-> "tag", k |-> 7, args |-> << 0, 1, 2 >>, proj |-> ""], E(8, << 0, 0, 1, 2 >>),
                [t |-> "inv", k |-> 9, args |-> << >>, proj |-> ""], E(10, << 1 >>), R(11, 1, "id"), E(12, << 0, 1, 2 >>) >> >>

\* what is observed: << who, k, << << identity, value >>, ... >> >>
Seen(sig, cur, a) == << IF ByRef(Params[sig][a + 1]) THEN a ELSE ANY, cur[a + 1] >>

Requirements(sig, chain, cur) ==
    { << "m", a, << Seen(sig, cur, a) >> >> : a \in 0..2 }
    \union { LET it == Chains[chain + 1][i] IN
             CASE it.proj = "neg" -> << "a", it.k, << << -1, 0 - cur[it.args[1] + 1] >> >> >>
               [] it.t = "tag" -> << "t", it.k, [j \in 1..3 |-> Seen(sig, cur, j - 1)] >>
               [] OTHER -> << "a", it.k, << Seen(sig, cur, it.args[1]) >> >>
             : i \in { i \in DOMAIN Chains[chain + 1] : Chains[chain + 1][i].t \in {"req", "tag"} } }

IsEffect(it) == it.t \in {"eff", "tag", "inv"}
Effects(chain) == SelectSeq(Chains[chain + 1], IsEffect)

\* ---- the call as a transition system --------------------------------------------------------------------------
\* x: the expectation [sig, chain, fin, val, delta]; n: how many calls it handled, including this one
Start(x, vals, n) == [ph |-> "match", x |-> x, n |-> n, init |-> vals, cur |-> vals, i |-> 1, log |-> << >>,
                      res |-> << "none", -1, 0 >>, moved |-> {}, fn |-> 0]

AddAll(sig, cur, args, d) ==
    [a \in 1..3 |-> IF Mutable(Params[sig][a]) THEN cur[a] + d * Cardinality({ j \in DOMAIN args : args[j] = a - 1 })
                    ELSE cur[a]]

StepMatch(c) == [c EXCEPT !.ph = IF Effects(c.x.chain) = << >> THEN "fin" ELSE "eff"]

StepEff(c) ==
    LET it == Effects(c.x.chain)[c.i]
        o == << "e", it.k, IF it.t = "inv" THEN << << -1, c.n >> >>
                           ELSE [j \in DOMAIN it.args |-> Seen(c.x.sig, c.cur, it.args[j])] >>
        last == c.i = Len(Effects(c.x.chain))
    IN [c EXCEPT !.log = Append(@, o), !.i = @ + 1, !.ph = IF last THEN "fin" ELSE "eff",
                 !.cur = IF it.t = "eff" THEN AddAll(c.x.sig, @, it.args, c.x.delta[it.k] + c.n - 1) ELSE @]

\* result from argument a: by reference if the signature returns one, else its value
FromArg(c, a) ==
    LET sig == c.x.sig IN
    CASE Result[sig] = "ref" -> << "ref", a, c.cur[a + 1] >>
      [] Result[sig] = "uptr" -> << "ref", a, c.cur[a + 1] >>
      [] OTHER -> << "val", -1, c.cur[a + 1] >>

\* finalizers: 0 stored value, 2 result of an invocable (stateful: val + number of evaluations), 3..5 argument 0..2,
\* 6 invocable of arguments 1 and 0, 7 invocable of all arguments, 8 stored reference, 9 throws, -1 nothing,
\* 10 an invocable that throws, 11 one with arguments 1 and 0 that throws, 12 a result whose conversion throws,
\* 13 a finalizer of the user's own that sees all arguments, 14 throws an exception of a derived type,
\* 15 an invocable with a result of another type, which is explicitly convertible
StepFin(c) ==
    LET sig == c.x.sig f == c.x.fin r == Result[sig] v(a) == c.cur[a + 1]
        by(k, as) == [c EXCEPT !.ph = "done", !.fn = 1,
                               !.log = Append(@, << "f", c.n, [j \in DOMAIN as |-> Seen(sig, c.cur, as[j])] >>),
                               !.res = k]
        none(k) == [c EXCEPT !.ph = "done", !.res = k]
        taken(k, a) == [c EXCEPT !.ph = "done", !.res = k,
                                 !.moved = IF r # "ref" /\ Params[sig][a + 1] \in {"val", "rref", "uptr"} THEN {a} ELSE {}]
    IN CASE f = -1 -> none(<< "void", -1, 0 >>)
         [] f = 9 -> none(<< "exc", -1, c.x.val >>)
         [] f = 0 -> none(IF r = "ref" THEN << "ref", ANY, c.x.val >> ELSE << "val", -1, c.x.val >>)
         [] f = 8 -> none(IF r = "ref" THEN << "ref", 40, 4000 >> ELSE << "val", -1, 4000 >>)
         [] f = 2 -> [c EXCEPT !.ph = "done", !.fn = 1,
                               !.res = IF r = "ref" THEN << "ref", 40, c.x.val + c.n >> ELSE << "val", -1, c.x.val + c.n >>]
         [] f \in 3..5 -> taken(FromArg(c, f - 3), f - 3)
         [] f = 10 -> [c EXCEPT !.ph = "done", !.fn = 1, !.res = << "exc", -1, c.x.val + c.n >>]
         [] f = 11 -> by(<< "exc", -1, c.x.val + c.n >>, << 1, 0 >>)
         [] f = 12 -> [c EXCEPT !.ph = "done", !.fn = 1, !.res = << "exc", -1, c.x.val >>]
         [] f = 14 -> none(<< "excd", -1, c.x.val >>)
         [] f = 15 -> [c EXCEPT !.ph = "done", !.fn = 1, !.res = << "val", -1, c.x.val + c.n >>]
         [] f = 6 -> by(CASE r = "void" -> << "void", -1, 0 >> [] sig = 4 -> FromArg(c, 0) [] r = "ref" -> FromArg(c, 1)
                          [] OTHER -> << "val", -1, v(1) * 10 + v(0) >>, << 1, 0 >>)
         [] f \in {7, 13} -> by(CASE r = "void" -> << "void", -1, 0 >> [] sig = 4 -> FromArg(c, 1) [] r = "ref" -> FromArg(c, 0)
                          [] OTHER -> << "val", -1, v(0) * 100 + v(1) * 10 + v(2) >>, << 0, 1, 2 >>)

Step(c) == CASE c.ph = "match" -> StepMatch(c) [] c.ph = "eff" -> StepEff(c) [] c.ph = "fin" -> StepFin(c)

RECURSIVE Finish(_)
Finish(c) == IF c.ph = "done" THEN c ELSE Finish(Step(c))

\* what the caller's object a holds afterwards, if that is determined
Determined(c, rv, a) ==
    LET p == Params[c.x.sig][a + 1] IN
    CASE p = "uptr" -> FALSE
      [] p = "val" -> rv[a + 1] = 0
      [] OTHER -> a \notin c.moved
After(c, a) == IF Params[c.x.sig][a + 1] = "val" THEN c.init[a + 1] ELSE c.cur[a + 1]

\* copies of T that the call needs: parameters by value given an lvalue, and a result by value from something kept
Copies(c, rv) ==
    Cardinality({ a \in 0..2 : Params[c.x.sig][a + 1] = "val" /\ rv[a + 1] = 0 })
    + (IF Result[c.x.sig] = "val" /\ (c.x.fin \in {0, 8} \/ (c.x.fin \in 3..5 /\ c.moved = {})) THEN 1 ELSE 0)

\* which finalizers and chains exist for a signature
Available(sig, chain, fin) ==
    CASE fin \in 10..15 -> /\ chain \in {0, 3}
                           /\ sig = 6 => fin \in {11, 13, 14}
                           /\ fin = 15 => sig \in {1, 5, 7}
      [] chain = 4 -> fin \in {IF sig = 6 THEN -1 ELSE 2, 7, 9}
      [] sig = 6 -> fin \in {-1, 9} \/ (fin = 6 /\ chain # 1) \/ (fin = 7 /\ chain # 2)
      [] sig = 5 -> fin \in {2, 3, 9} \/ (fin = 6 /\ chain # 1) \/ (fin = 7 /\ chain # 2)
      [] sig = 7 -> fin \in {0, 2, 9} \/ (fin = 6 /\ chain # 1) \/ (fin = 7 /\ chain # 2)
      [] OTHER -> \/ fin \in {0, 2, 3, 9}
                  \/ fin = 6 /\ chain # 1
                  \/ fin = 7 /\ chain # 2
                  \/ fin = 4 /\ sig \in 1..3 /\ chain # 2
                  \/ fin = 5 /\ sig \in {1, 3} /\ chain # 1
                  \/ fin = 8 /\ sig \in 1..3
=============================================================================
