------------------------------ MODULE Matchers ------------------------------
(***************************************************************************)
(* Matchers: which values a matcher accepts, and how matchers come from    *)
(* each other by inversion, copy and move.                                 *)
(*                                                                         *)
(* A definition d is [fam, kind, ty, ci, arg, eq, lt, cmp]; values and     *)
(* operands are sequences of integers (a number is a sequence of one).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NAN == 99999

\* ---- relations between a value and an operand ----------------------------------------------------------------
B(c) == c % 256
RECURSIVE LexLess(_, _)
LexLess(s, t) == CASE t = << >> -> FALSE
                   [] s = << >> -> TRUE
                   [] B(Head(s)) # B(Head(t)) -> B(Head(s)) < B(Head(t))
                   [] OTHER -> LexLess(Tail(s), Tail(t))
SameBytes(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : B(s[i]) = B(t[i])

EqR(d, a, b) == CASE d.ty = 2 -> d.eq[a[1] * 3 + b[1] + 1] = 1
                  [] d.ty = 3 -> SameBytes(a, b)
                  [] d.ty = 4 -> a[1] # NAN /\ b[1] # NAN /\ a[1] = b[1]
                  [] OTHER -> a[1] = b[1]
LtR(d, a, b) == CASE d.ty = 2 -> d.lt[a[1] * 3 + b[1] + 1] = 1
                  [] d.ty = 3 -> LexLess(a, b)
                  [] d.ty = 4 -> a[1] # NAN /\ b[1] # NAN /\ a[1] < b[1]
                  [] OTHER -> a[1] < b[1]

\* bit x of mask, for 0 <= x < 16
Bit(mask, x) == x >= 0 /\ x < 16 /\ (mask \div (2 ^ x)) % 2 = 1

AcceptCmp(d, v) ==
    CASE d.kind \in {"eq", "dir"} -> EqR(d, v, d.arg)
      [] d.kind = "ne" -> ~EqR(d, v, d.arg)
      [] d.kind = "lt" -> LtR(d, v, d.arg)
      [] d.kind = "gt" -> LtR(d, d.arg, v)
      [] d.kind = "le" -> LtR(d, v, d.arg) \/ EqR(d, v, d.arg)
      [] d.kind = "ge" -> LtR(d, d.arg, v) \/ EqR(d, v, d.arg)
      [] d.kind = "any" -> TRUE
      [] d.kind \in {"pred", "predt", "own"} -> Bit(d.arg[1], v[1])
      [] d.kind = "inst" -> v[1] = d.arg[1]

\* ---- strings -------------------------------------------------------------------------------------------------
Fold(c) == IF B(c) \in 97..122 THEN B(c) - 32 ELSE B(c)
\* types: 0 char, 1..4 the other characters, 5 a string type of the user with char, 6 a character type of the user whose
\* case folding makes none, one or two characters of one
FoldChar(c) == CASE c = 0 -> << >>
                 [] c \in 97..122 -> IF c % 2 = 0 THEN << c - 32, c - 32 >> ELSE << c - 32 >>
                 [] OTHER -> << c >>
RECURSIVE FoldText(_)
FoldText(s) == IF s = << >> THEN << >> ELSE FoldChar(Head(s)) \o FoldText(Tail(s))
Norm(d, s) == CASE d.ty = 6 -> IF d.ci = 1 THEN FoldText(s) ELSE s
                [] d.ci = 1 -> [i \in DOMAIN s |-> Fold(s[i])]
                [] d.ty \in {0, 5} -> [i \in DOMAIN s |-> B(s[i])]
                [] OTHER -> s
At(t, p, k) == k + Len(p) <= Len(t) /\ \A i \in DOMAIN p : t[k + i] = p[i]
AcceptStr(d, v) ==
    LET t == Norm(d, v) p == Norm(d, d.arg) IN
    CASE d.kind = "eq" -> Len(t) = Len(p) /\ At(t, p, 0)
      [] d.kind = "starts" -> At(t, p, 0)
      [] d.kind = "ends" -> Len(p) <= Len(t) /\ At(t, p, Len(t) - Len(p))
      [] d.kind = "contains" -> \E k \in 0..Len(t) : At(t, p, k)

\* ---- ranges --------------------------------------------------------------------------------------------------
Cmp(c, a, b) == CASE c = "eq" -> a = b [] c = "mod" -> a % 2 = b % 2 [] c = "lt" -> a < b
Before(c, a, b) == CASE c = "less" -> a < b [] c = "greater" -> a > b [] c = "modless" -> a % 2 < b % 2
CountLike(c, s, x) == Cardinality({ i \in DOMAIN s : Cmp(c, s[i], x) })
AcceptRng(d, v) ==
    CASE d.kind = "eq" -> Len(v) = Len(d.arg) /\ \A i \in DOMAIN v : Cmp(d.cmp, v[i], d.arg[i])
      [] d.kind = "perm" -> Len(v) = Len(d.arg) /\ \A i \in DOMAIN v : CountLike(d.cmp, v, v[i]) = CountLike(d.cmp, d.arg, v[i])
      [] d.kind = "sorted" -> \A i \in 1..(Len(v) - 1) : ~Before(d.cmp, v[i + 1], v[i])
      [] d.kind = "empty" -> v = << >>
      [] d.kind = "size" -> Len(v) = d.arg[1]

Inner(kind, k, x) == CASE kind = "eq" -> x = k [] kind = "lt" -> x < k [] kind = "ge" -> x >= k [] kind = "any" -> TRUE
                       [] kind \in {"pred", "own", "hook", "catch"} -> Bit(k, x)
\* a range of ranges is written with -99 after each inner range
RECURSIVE Split(_, _)
Split(s, cur) == IF s = << >> THEN << >>
                 ELSE IF Head(s) = -99 THEN << cur >> \o Split(Tail(s), << >>)
                 ELSE Split(Tail(s), Append(cur, Head(s)))
InnerRange(kind, k, r) == CASE kind = "each" -> \A i \in DOMAIN r : r[i] < k
                            [] kind = "any" -> \E i \in DOMAIN r : r[i] < k
                            [] kind = "noteach" -> ~\A i \in DOMAIN r : r[i] < k
AcceptEl(d, v) ==
    LET k == d.arg[1] IN
    CASE d.cmp = "inst" -> \* elements by identity: element i is object i - 1 in every range
           IF d.kind = "each" THEN \A i \in DOMAIN v : i - 1 = k ELSE \E i \in DOMAIN v : i - 1 = k
      [] d.kind = "each" -> \A i \in DOMAIN v : Inner(d.cmp, k, v[i])
      [] d.kind = "any" -> \E i \in DOMAIN v : Inner(d.cmp, k, v[i])
      [] d.kind = "each2" -> LET rs == Split(v, << >>) IN \A i \in DOMAIN rs : InnerRange(d.cmp, k, rs[i])
      [] d.kind = "any2" -> LET rs == Split(v, << >>) IN \E i \in DOMAIN rs : InnerRange(d.cmp, k, rs[i])

Accept(d, v) == CASE d.fam = "cmp" -> AcceptCmp(d, v)
                  [] d.fam = "str" -> AcceptStr(d, v)
                  [] d.fam = "rng" -> AcceptRng(d, v)
                  [] d.fam = "el" -> AcceptEl(d, v)

\* ---- descriptions: of the matcher and of its inversion, the printed operand as {} ------------------------------
CmpText(k) == CASE k = "eq" -> << "== {}", "!= {}" >> [] k = "ne" -> << "!= {}", "== {}" >>
                [] k = "lt" -> << "< {}", ">= {}" >> [] k = "ge" -> << ">= {}", "< {}" >>
                [] k = "gt" -> << "> {}", "<= {}" >> [] k = "le" -> << "<= {}", "> {}" >>
                [] k = "pred" -> << "passes predicate", "fails predicate" >>
                [] k = "predt" -> << "has bit in {}", "has no bit in {}" >>
                [] k = "inst" -> << "is instance at {}", "is not instance at {}" >>
                [] k = "any" -> << "has no constraints", "" >> [] k \in {"dir", "own"} -> << "", "" >>
StrText(k, ci) ==
    IF ci = 0 THEN CASE k = "eq" -> << "is equal to {}", "is not equal to {}" >>
                     [] k = "starts" -> << "starts with {}", "starts not with {}" >>
                     [] k = "ends" -> << "ends with {}", "ends not with {}" >>
                     [] k = "contains" -> << "contains {}", "contains not {}" >>
    ELSE CASE k = "eq" -> << "is case-insensitively equal to {}", "is case-insensitively not equal to {}" >>
           [] k = "starts" -> << "case-insensitively starts with {}", "case-insensitively starts not with {}" >>
           [] k = "ends" -> << "case-insensitively ends with {}", "case-insensitively ends not with {}" >>
           [] k = "contains" -> << "case-insensitively contains {}", "case-insensitively contains not {}" >>
RngText(k) == CASE k = "eq" -> << "elements are {}", "elements are not {}" >>
                [] k = "perm" -> << "is a permutation of {}", "is not a permutation of {}" >>
                [] k = "sorted" -> << "is a sorted range", "is an unsorted range" >>
                [] k = "empty" -> << "is an empty range", "is not an empty range" >>
                [] k = "size" -> << "has size of {}", "has different size than {}" >>
                [] k \in {"each", "each2"} -> << "each el in range: el {}", "not each el in range: el {}" >>
                [] k \in {"any", "any2"} -> << "any el in range: el {}", "none el in range: el {}" >>
Text(d, neg) == LET t == CASE d.fam = "cmp" -> CmpText(d.kind) [] d.fam = "str" -> StrText(d.kind, d.ci) [] OTHER -> RngText(d.kind)
                IN IF neg THEN t[2] ELSE t[1]

\* ---- matchers made from one definition -------------------------------------------------------------------------
\* slots: sequence of [neg, gone]; slot 1 is the original
Fresh == << [neg |-> FALSE, gone |-> FALSE] >>
Inverted(s, i, moved) == Append([s EXCEPT ![i].gone = moved], [neg |-> ~s[i].neg, gone |-> FALSE])
Duplicated(s, i, moved) == Append([s EXCEPT ![i].gone = moved], [neg |-> s[i].neg, gone |-> FALSE])
Accepts(d, slot, v) == Accept(d, v) # slot.neg

Invertible(d) == ~(d.fam = "cmp" /\ d.kind \in {"any", "dir", "own"})
Copyable(d) == ~(d.fam = "cmp" /\ d.kind \in {"dir", "own"})
=============================================================================
