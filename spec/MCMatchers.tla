----------------------------- MODULE MCMatchers -----------------------------
(* Every definition of a small scope with every short history of inversions, copies and moves; the laws that relate
   matchers to each other; scripts that match every value of the scope after each history. *)
EXTENDS Matchers, IOUtils, Json

Wide == IOEnv.WIDE = "1"
Fam == IOEnv.FAM

Seqs(A, n) == UNION { [1..k -> A] : k \in 0..n }

D(fam, kind, ty, ci, arg, eq, lt, cmp) ==
    [fam |-> fam, kind |-> kind, ty |-> ty, ci |-> ci, arg |-> arg, eq |-> eq, lt |-> lt, cmp |-> cmp]

Tab(R) == [i \in 1..9 |-> IF << (i - 1) \div 3, (i - 1) % 3 >> \in R THEN 1 ELSE 0]
EqTabs == { Tab({}), Tab({ << 0, 0 >>, << 1, 1 >>, << 2, 2 >> }), Tab({ << 0, 1 >>, << 2, 2 >> }), Tab({ << 1, 0 >>, << 1, 2 >> }) }
LtTabs == { Tab({}), Tab({ << 0, 1 >>, << 0, 2 >>, << 1, 2 >> }), Tab({ << 1, 0 >>, << 2, 2 >> }) }

Rels == {"eq", "ne", "lt", "le", "gt", "ge"}
Ab == {0, 65, 97, 98}
Defs ==
    CASE Fam = "cmp" ->
           { D("cmp", k, ty, 0, << a >>, << >>, << >>, "") : k \in Rels, ty \in {1, 4, 5}, a \in {-1, 0, 2} }
           \union { D("cmp", k, 4, 0, << NAN >>, << >>, << >>, "") : k \in Rels }
           \union { D("cmp", k, 2, 0, << a >>, e, t, "") : k \in Rels, a \in 0..2, e \in EqTabs, t \in LtTabs }
           \union { D("cmp", k, 3, 0, a, << >>, << >>, "") : k \in Rels, a \in Seqs({65, 97, 98}, 2) }
           \union { D("cmp", "dir", 1, 0, << a >>, << >>, << >>, "") : a \in {-1, 0, 2} }
           \union { D("cmp", "dir", 4, 0, << a >>, << >>, << >>, "") : a \in {0, 3, NAN} }
           \union { D("cmp", "dir", 2, 0, << a >>, e, Tab({}), "") : a \in 0..2, e \in EqTabs }
           \union { D("cmp", "dir", 3, 0, a, << >>, << >>, "") : a \in Seqs({65, 97, 98}, 2) }
           \union { D("cmp", "pred", 1, 0, << a >>, << >>, << >>, "") : a \in 0..7 }
           \union { D("cmp", k, 1, 0, << a >>, << >>, << >>, "") : k \in {"predt", "own"}, a \in {0, 3, 5} }
           \union { D("cmp", "inst", ty, 0, << a >>, << >>, << >>, "") : ty \in {1, 11, 12, 13}, a \in 0..3 }
           \union { D("cmp", "any", 1, 0, << 0 >>, << >>, << >>, "") }
      [] Fam = "str" ->
           { D("str", k, ty, ci, p, << >>, << >>, "") :
             k \in {"eq", "starts", "ends", "contains"}, ty \in {0, 6}, ci \in {0, 1}, p \in Seqs(Ab, IF Wide THEN 3 ELSE 2) }
      [] Fam = "rng" ->
           { D("rng", "eq", 0, 0, p, << >>, << >>, c) : p \in Seqs(0..2, IF Wide THEN 3 ELSE 2), c \in {"eq", "mod", "lt"} }
           \union { D("rng", "perm", 0, 0, p, << >>, << >>, c) : p \in Seqs(0..2, 3), c \in {"eq", "mod"} }
           \union { D("rng", "sorted", 0, 0, << >>, << >>, << >>, c) : c \in {"less", "greater", "modless"} }
           \union { D("rng", "empty", 0, 0, << >>, << >>, << >>, "-") }
           \union { D("rng", "size", 0, 0, << k >>, << >>, << >>, "-") : k \in -1..4 }
           \union { D("el", k, 0, 0, << x >>, << >>, << >>, i) : k \in {"each", "any"}, x \in 0..3, i \in {"eq", "lt", "ge", "any", "pred", "own", "hook", "catch", "inst"} }
           \union { D("el", k, 0, 0, << x >>, << >>, << >>, i) : k \in {"each2", "any2"}, x \in 0..2, i \in {"each", "any", "noteach"} }

Nested(d) == d.fam = "el" /\ d.kind \in {"each2", "any2"}
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o << -99 >> \o Flat(Tail(s))

Values(d) ==
    CASE d.fam = "str" -> Seqs(Ab, 3)
      [] d.fam = "cmp" /\ d.ty = 2 -> { << x >> : x \in 0..2 }
      [] d.fam = "cmp" /\ d.ty = 3 -> Seqs({65, 97, 98}, IF Wide THEN 3 ELSE 2) \union { << 97, 98, 98 >>, << 98, 97, 97 >>, << 97, 65, 97 >> }
      [] d.fam = "cmp" /\ d.kind = "inst" -> { << x >> : x \in 0..3 }
      [] d.fam = "cmp" /\ d.ty = 4 -> { << x >> : x \in {-1, 0, 1, 2, 3, NAN} }
      [] d.fam = "cmp" -> { << x >> : x \in -2..4 }
      [] Nested(d) -> { Flat(s) : s \in Seqs(Seqs(0..1, 2), 2) }
      [] OTHER -> Seqs(0..2, IF Wide THEN 4 ELSE 3)

VARIABLES d, slots, hist
vars == << d, slots, hist >>

Init == d \in Defs /\ slots = Fresh /\ hist = << >>

MaxOps == 2
Next == /\ Len(hist) < MaxOps
        /\ \E i \in DOMAIN slots, mv \in BOOLEAN :
             /\ ~slots[i].gone
             /\ \/ /\ Invertible(d) /\ slots' = Inverted(slots, i, mv) /\ hist' = Append(hist, << "inv", i, IF mv THEN 1 ELSE 0 >>)
                \/ /\ Copyable(d) /\ slots' = Duplicated(slots, i, mv) /\ hist' = Append(hist, << "dup", i, IF mv THEN 1 ELSE 0 >>)
        /\ UNCHANGED d
Spec == Init /\ [][Next]_vars

\* ---- laws ------------------------------------------------------------------------------------------------------
With(k) == [d EXCEPT !.kind = k]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
IsPermutation(a, b) == \E p \in [DOMAIN a -> DOMAIN b] :
    /\ Len(a) = Len(b) /\ \A i, j \in DOMAIN a : i # j => p[i] # p[j]
    /\ \A i \in DOMAIN a : Cmp(d.cmp, a[i], b[p[i]])

\* the number of inversions between the original and a slot decides which side it accepts; slot k + 1 was made by step k
RECURSIVE Inversions(_)
Inversions(k) == IF k = 1 THEN 0 ELSE (IF hist[k - 1][1] = "inv" THEN 1 ELSE 0) + Inversions(hist[k - 1][2])
ParityDecides ==
    \A k \in DOMAIN slots : /\ slots[k].neg <=> Inversions(k) % 2 = 1
                            /\ slots[k].gone <=> \E j \in DOMAIN hist : hist[j][2] = k /\ hist[j][3] = 1

StrLaws == (d.fam = "str" /\ hist = << >>) =>
    \A v \in Values(d) :
        LET a(k) == Accept(With(k), v) IN
        /\ a("eq") => a("starts") /\ a("ends") /\ a("contains")
        /\ (a("starts") /\ Len(Norm(d, v)) = Len(Norm(d, d.arg))) => a("eq")
        /\ a("starts") \/ a("ends") => a("contains")
        /\ (d.ty # 6 \/ d.ci = 0) => (a("contains") <=> \E k \in 0..Len(v) : Accept(With("starts"), SubSeq(v, k + 1, Len(v))))
        /\ a("ends") <=> Accept([d EXCEPT !.kind = "starts", !.arg = Rev(@)], Rev(v))
        /\ d.arg = << >> => a("starts") /\ a("ends") /\ a("contains")
        /\ Accept([d EXCEPT !.ci = 0], v) => Accept([d EXCEPT !.ci = 1], v)

CmpLaws == (d.fam = "cmp" /\ d.kind \in Rels /\ hist = << >>) =>
    \A v \in Values(d) :
        LET a(k) == Accept(With(k), v) IN
        /\ a("ne") # a("eq")
        /\ a("le") <=> a("lt") \/ a("eq")
        /\ a("ge") <=> a("gt") \/ a("eq")
        /\ (d.ty \in {1, 3, 5}) => Cardinality({ k \in {"lt", "eq", "gt"} : a(k) }) = 1

RngLaws == (d.fam = "rng" /\ hist = << >>) =>
    \A v \in Values(d) :
        /\ d.kind = "perm" => (Accept(d, v) <=> IsPermutation(v, d.arg))
        /\ d.kind = "eq" /\ d.cmp # "lt" /\ Accept(d, v) => Accept(With("perm"), v)
        /\ d.kind = "empty" => (Accept(d, v) <=> Accept([d EXCEPT !.kind = "size", !.arg = << 0 >>], v))

ElLaws == (d.fam = "el" /\ ~Nested(d) /\ hist = << >>) =>
    \A v \in Values(d) :
        /\ v = << >> => (Accept(d, v) <=> d.kind = "each")
        /\ (d.kind = "each" /\ v # << >> /\ Accept(d, v)) => Accept(With("any"), v)
        /\ (d.cmp = "lt") => (Accept(With("each"), v) <=> ~Accept([d EXCEPT !.kind = "any", !.cmp = "ge"], v))

Inv == ParityDecides /\ StrLaws /\ CmpLaws /\ RngLaws /\ ElLaws

Out == Len(hist') = MaxOps \/ ~Copyable(d)
EmitA == Out => PrintT("SCRIPT " \o ToJson([d |-> d, h |-> hist']))
\* definitions without a history
EmitInit == (hist = << >> /\ ~Copyable(d)) => PrintT("SCRIPT " \o ToJson([d |-> d, h |-> hist]))
=============================================================================
