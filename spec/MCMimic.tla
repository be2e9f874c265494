------------------------------ MODULE MCMimic ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Mimic in small scopes.  A scope (SCOPE in the *)
(* environment) fixes the mocks and sequences that exist and the menus of  *)
(* expectations and calls.  The properties are stated over the HISTORY of  *)
(* handled calls and reports, independently of the counters and cursors by *)
(* which Mimic (and the library) decides, and are checked in every         *)
(* reachable state and transition.  With EMIT=1 every transition of the    *)
(* state graph is printed as a script, which is replayed on the library    *)
(* and validated by TraceMimic.                                            *)
(***************************************************************************)
EXTENDS Mimic, Json, IOUtils

Scope == IOEnv.SCOPE
EmitOn == IOEnv.EMIT = "1"
DepthOf == atoi(IOEnv.DEPTH)

VARIABLES
    S,       \* the abstract state, see Mimic
    hist,    \* the operations so far (not part of the state proper)
    mh,      \* history: handled calls as << uid, state before >> reduced to << uid >>
    unf,     \* uid -> number of unfulfilled reports
    serr,    \* sid -> number of errors reported for the sequence
    nops,    \* number of operations
    mem      \* scope "blocked": << uid, why >> of the expectations that were looked at by calls that failed

vars == << S, hist, mh, unf, serr, nops, mem >>

----------------------------------------------------------------------------
(* Scopes.                                                                 *)

Tm(tk, ta, tb) == << tk, ta, tb >>
Once == Tm(0, 0, 0)
AnyNum == Tm(1, 0, INTMAX)

\* an expectation on mock m, one argument atom, times, sequences
EX(m, a, tm, seqs) ==
    [ m |-> m, expr |-> 0, ar |-> 1, argk |-> 0, aa |-> << << a[1], a[2], 1 >> >>, pol |-> 0,
      pa |-> << <<0, 0, 2>> >>, psat |-> TRUE, fin |-> 0, sfx |-> << >>,
      tk |-> tm[1], ta |-> tm[2], tb |-> tm[3], seqs |-> seqs, spell |-> 0 ]
AnyA == <<0, 0>>
Eq(v) == <<1, v>>
On(e, expr) == [e EXCEPT !.expr = expr]
Ar(e, n) == [e EXCEPT !.ar = n, !.aa = [i \in 1..n |-> <<0, 0, i>>], !.pa = << <<0, 0, n + 1>> >>]
CL(m, expr, args) == [m |-> m, expr |-> expr, args |-> args]

Scn ==
    CASE Scope = "plain" ->
           [ mocks |-> <<0>>, seqs |-> << >>, max |-> 3, ops |-> {"del"},
             exps |-> { EX(1, AnyA, Once, << >>), EX(1, Eq(1), Once, << >>), EX(1, AnyA, Tm(1, 0, 2), << >>),
                        EX(1, Eq(2), Tm(2, 2, 0), << >>), EX(1, <<7, 1>>, AnyNum, << >>) },
             calls |-> { CL(1, 0, <<1>>), CL(1, 2, <<2>>) } ]
      [] Scope = "times" ->
           [ mocks |-> <<0>>, seqs |-> << >>, max |-> 2, ops |-> {"del", "psat"},
             exps |-> { EX(1, AnyA, t, << >>) : t \in { Once, Tm(1,0,0), Tm(1,0,1), Tm(1,1,2), Tm(1,2,3), Tm(1,2,1),
                        Tm(1,-1,1), Tm(2,2,0), Tm(2,-1,0), Tm(3,1,0), Tm(3,-1,0), Tm(4,2,0), Tm(4,-1,0), Tm(5,0,0), Tm(6,0,0) } },
             calls |-> { CL(1, 0, <<1>>) } ]
      [] Scope = "timesq" ->
           [ mocks |-> <<0>>, seqs |-> << TRUE, FALSE, TRUE >>, max |-> 1, ops |-> {"del", "psat"},
             exps |-> { EX(1, AnyA, t, q) : t \in { Once, Tm(1,1,2), Tm(1,2,3), Tm(2,2,0), Tm(2,3,0), Tm(3,2,0), Tm(3,4,0), Tm(4,2,0), Tm(1,0,3) },
                                            q \in { << >>, <<1>>, <<2>>, <<1,2>>, <<1,2,3>> } },
             calls |-> { CL(1, 0, <<1>>) } ]
      [] Scope = "own" ->
           [ mocks |-> <<0, 0>>, seqs |-> << >>, max |-> 3, ops |-> {"del", "mv", "mva", "swap", "dmock", "mvmock"},
             exps |-> { EX(1, AnyA, Once, << >>), EX(2, AnyA, Tm(1, 0, 1), << >>) },
             calls |-> { CL(1, 0, <<1>>), CL(2, 0, <<1>>) } ]
      [] Scope = "lazy" \/ Scope = "greedy" ->
           [ mocks |-> <<0>>, seqs |-> << Scope = "lazy" >>, max |-> 4, ops |-> {"del", "dseq"},
             exps |-> { EX(1, AnyA, t, <<1>>) : t \in { Once, Tm(1,0,1), Tm(1,1,2), Tm(1,0,0), Tm(2,2,0) } }
                      \union { EX(1, AnyA, Tm(1,0,1), << >>) },
             calls |-> { CL(1, 0, <<1>>) } ]
      [] Scope = "multi" ->
           [ mocks |-> <<0>>, seqs |-> << TRUE, FALSE >>, max |-> 4, ops |-> {"del", "dseq"},
             exps |-> { EX(1, AnyA, Once, q) : q \in { <<1>>, <<1,2>>, <<2,1>> } }
                      \union { EX(1, AnyA, Tm(1,0,2), q) : q \in { <<2>>, <<1,2>> } }
                      \union { EX(1, AnyA, Once, <<1,1>>) },
             calls |-> { CL(1, 0, <<1>>) } ]
      [] Scope = "multi3" ->
           [ mocks |-> <<0>>, seqs |-> << TRUE, TRUE, FALSE >>, max |-> 3, ops |-> {"del"},
             exps |-> { EX(1, AnyA, Tm(1,0,2), q) : q \in { <<1>>, <<2>>, <<3>>, <<1,2>>, <<2,3>>, <<3,1>>, <<1,2,3>>, <<2,1,2>> } }
                      \union { EX(1, AnyA, Once, <<3,2,1>>) },
             calls |-> { CL(1, 0, <<1>>) } ]
      [] Scope = "pairs" ->
           [ mocks |-> <<0>>, seqs |-> << TRUE, TRUE, FALSE, FALSE >>, max |-> 3, ops |-> {},
             exps |-> { EX(1, AnyA, Tm(1,0,2), q) : q \in { r \in UNION { [1..n -> 1..4] : n \in 1..3 } : \A i, j \in DOMAIN r : i < j => r[i] < r[j] } },
             calls |-> { CL(1, 0, <<1>>) } ]
      [] Scope = "seqend" ->
           [ mocks |-> <<0, 0>>, seqs |-> << TRUE, FALSE >>, max |-> 3, ops |-> {"del", "dseq", "mv", "mva", "dmock"},
             exps |-> { EX(1, AnyA, Once, <<1>>), EX(1, AnyA, Tm(1,0,1), <<1>>), EX(2, AnyA, Once, <<1, 2>>) },
             calls |-> { CL(1, 0, <<1>>), CL(2, 0, <<1>>) } ]
      [] Scope = "overload1" ->
           [ mocks |-> <<1>>, seqs |-> << >>, max |-> 3, ops |-> {"del"},
             exps |-> { On(EX(1, AnyA, t, << >>), e) : e \in 0 .. 3, t \in {Once, AnyNum} },
             calls |-> { CL(1, e, <<1>>) : e \in 0 .. 3 } ]
      [] Scope = "overload2" ->
           [ mocks |-> <<2>>, seqs |-> << >>, max |-> 4, ops |-> {"del"},
             exps |-> { On(EX(1, AnyA, t, << >>), e) : e \in 0 .. 1, t \in {Once, Tm(2,2,0)} },
             calls |-> { CL(1, e, <<1>>) : e \in 0 .. 3 } ]
      [] Scope = "overload3" ->
           [ mocks |-> <<7>>, seqs |-> << >>, max |-> 3, ops |-> {"del"},
             exps |-> { On(EX(1, AnyA, Once, << >>), 0), Ar(EX(1, AnyA, Once, << >>), 2), On(Ar(EX(1, AnyA, AnyNum, << >>), 2), 1) },
             calls |-> { CL(1, e, <<1>>) : e \in 0 .. 1 } \union { CL(1, e, <<1, 2>>) : e \in 0 .. 3 } ]
      [] Scope = "require" ->
           [ mocks |-> <<0>>, seqs |-> << >>, max |-> 2, ops |-> {},
             exps |-> { [EX(1, a, Tm(1, 0, 2), << >>) EXCEPT !.pol = 3, !.pa = << <<b[1], b[2], 2>>, <<0, 0, 3>>, <<c[1], c[2], 4>> >>] :
                          a \in { AnyA, Eq(1), <<7, 1>> }, b \in { AnyA, <<2, 1>>, <<8, 0>> }, c \in { AnyA, <<3, -1>>, <<7, -1>> } },
             calls |-> { CL(1, 0, <<1>>), CL(1, 0, <<2>>) } ]
      [] Scope = "fin" ->
           [ mocks |-> <<0, 4>>, seqs |-> << >>, max |-> 2, ops |-> {"del"},
             exps |-> { [EX(1, AnyA, Tm(1, 0, 2), << >>) EXCEPT !.fin = f, !.pol = p, !.sfx = <<-1, -1, -1>>] : f \in 0 .. 5, p \in 0 .. 2 }
                      \union { [EX(2, AnyA, Tm(1, 0, 2), << >>) EXCEPT !.fin = f, !.pol = p, !.sfx = <<-1, -1, -1>>] : f \in 0 .. 1, p \in 0 .. 1 },
             calls |-> { CL(m, 0, <<v>>) : m \in {1, 2}, v \in {1, 2} } ]
      \* what a failed call may leave behind: it is part of the view, hence every continuation is explored
      [] Scope = "blocked" ->
           [ mocks |-> <<0>>, seqs |-> << TRUE >>, max |-> 3, ops |-> {},
             exps |-> { EX(1, Eq(0), Once, <<1>>), EX(1, Eq(2), Tm(1,0,2), << >>), EX(1, <<2, 0>>, Tm(1,0,2), <<1>>),
                        EX(1, <<2, 1>>, AnyNum, << >>), EX(1, Eq(2), Once, <<1>>) },
             calls |-> { CL(1, 0, <<v>>) : v \in 0 .. 2 } ]
      [] Scope = "mocks" ->
           [ mocks |-> <<0, 0>>, seqs |-> << >>, max |-> 3, ops |-> {"mvmock", "mamock", "swmock", "dmock", "del"},
             exps |-> { EX(m, a, Once, << >>) : m \in {1, 2}, a \in { AnyA, Eq(2) } },
             calls |-> { CL(m, 0, <<v>>) : m \in {1, 2, 3}, v \in {1, 2} } ]

----------------------------------------------------------------------------
InitState ==
    LET RECURSIVE M(_, _)
        M(T, i) == IF i > Len(Scn.mocks) THEN T ELSE M(AddMock(T, i, Scn.mocks[i]), i + 1)
        RECURSIVE Q(_, _)
        Q(T, i) == IF i > Len(Scn.seqs) THEN T ELSE Q(AddSeq(T, i, Scn.seqs[i]), i + 1)
    IN Q(M(Empty, 1), 1)

Init == S = InitState /\ hist = << >> /\ mh = << >> /\ unf = << >> /\ serr = [i \in DOMAIN Scn.seqs |-> 0] /\ nops = 0 /\ mem = {}

Step(op, T, h) ==
    /\ S' = T /\ mh' = h /\ nops' = nops + 1
    /\ hist' = Append(hist, op)
    /\ serr' = [ i \in DOMAIN T.sq |-> serr[i] + (IF i \in EndedNow(S, T) /\ SeqError(T.sq[i]) THEN 1 ELSE 0) ]
    /\ unf' = [ u \in DOMAIN T.ex |->
                 (IF u \in DOMAIN unf THEN unf[u] ELSE 0)
                 + (IF u \in DOMAIN S.ex /\ S.ex[u].alive /\ ~T.ex[u].alive /\ ~Sat(S.ex[u]) THEN 1 ELSE 0) ]

Failed(c) ==
    IF Scope # "blocked" THEN {}
    ELSE { << u, Usable(S, S.ex[u]) >> : u \in { u \in DOMAIN S.ex : S.ex[u].alive } }

Create ==
    /\ Len(S.ex) < Scn.max
    /\ \E d0 \in Scn.exps :
         /\ S.mk[d0.m].u # 0
         /\ \A i \in DOMAIN d0.seqs : S.ss[d0.seqs[i]] # 0
         /\ LET d == d0 @@ [x |-> Len(S.ex) + 1] IN
              Step([op |-> "exp"] @@ d, IF ExpValid(S, d) THEN AddExp(S, d) ELSE S, mh)

Call ==
    \E c0 \in Scn.calls :
      /\ S.mk[c0.m].u # 0
      /\ LET c == MkCall(S, c0.m, c0.expr, c0.args)
             F == Full(S, c)
         IN Step([op |-> "call"] @@ c0,
                 IF F = {} THEN S ELSE Consume(S, Best(S, F)),
                 IF F = {} THEN mh ELSE Append(mh, Best(S, F)))
            /\ mem' = IF F = {} THEN mem \union Failed(c) ELSE mem

Del ==
    /\ "del" \in Scn.ops
    /\ \E x \in { x \in Slots : S.own[x] # 0 } :
         Step([op |-> "del", x |-> x], [Retire(S, S.own[x]) EXCEPT !.own[x] = 0], mh)

Mv ==
    /\ "mv" \in Scn.ops
    /\ \E x \in { x \in Slots : S.own[x] # 0 } :
         Step([op |-> "mv", x |-> x, y |-> 9], [S EXCEPT !.own[9] = S.own[x], !.own[x] = 0], mh)
         /\ S.own[9] = 0 /\ x # 9

Mva ==
    /\ "mva" \in Scn.ops
    /\ \E x, y \in { x \in Slots : S.own[x] # 0 } :
         /\ x # y
         /\ Step([op |-> "mva", x |-> x, y |-> y],
                 [Retire(S, S.own[y]) EXCEPT !.own[y] = S.own[x], !.own[x] = 0], mh)

Swap ==
    /\ "swap" \in Scn.ops
    /\ \E x, y \in { x \in Slots : S.own[x] # 0 } :
         x < y /\ Step([op |-> "swap", x |-> x, y |-> y], [S EXCEPT !.own[x] = S.own[y], !.own[y] = S.own[x]], mh)

DSeq ==
    /\ "dseq" \in Scn.ops
    /\ \E s \in { s \in Slots : S.ss[s] # 0 } : Step([op |-> "dseq", s |-> s], DropObj(S, s), mh)

DMock ==
    /\ "dmock" \in Scn.ops
    /\ \E m \in { m \in Slots : S.mk[m].u # 0 } : Step([op |-> "dmock", m |-> m], DropMock(S, m), mh)

MvMock ==
    /\ "mvmock" \in Scn.ops
    /\ S.mk[3].u = 0
    /\ \E m \in { m \in Slots : S.mk[m].u # 0 } : Step([op |-> "mvmock", m |-> m, m2 |-> 3], MoveMock(S, m, 3), mh)

MaMock ==
    /\ "mamock" \in Scn.ops
    /\ \E m, m2 \in { m \in Slots : S.mk[m].u # 0 } :
         m # m2 /\ Step([op |-> "mamock", m |-> m, m2 |-> m2], MoveMock(S, m, m2), mh)

SwMock ==
    /\ "swmock" \in Scn.ops
    /\ \E m, m2 \in { m \in Slots : S.mk[m].u # 0 } :
         m < m2 /\ Step([op |-> "swmock", m |-> m, m2 |-> m2], SwapMocks(S, m, m2), mh)

PSat ==
    /\ "psat" \in Scn.ops
    /\ \E x \in { x \in Slots : S.own[x] # 0 } :
         LET b == ~S.ex[S.own[x]].psat IN
         Step([op |-> "psat", x |-> x, b |-> IF b THEN 1 ELSE 0], [S EXCEPT !.ex[S.own[x]].psat = b], mh)

Other == Create \/ Del \/ Mv \/ Mva \/ Swap \/ DSeq \/ DMock \/ MvMock \/ MaMock \/ SwMock \/ PSat

Next == Call \/ (Other /\ mem' = mem)

Spec == Init /\ [][Next]_vars

Bound == nops < DepthOf

View == << S, mh, unf, serr, mem >>

\* prints every transition once, as the shortest script that ends with it
\* (scope "blocked": those with a choice between several expectations after a call failed)
Emit ==
    LET last == hist'[Len(hist')]
        choice == /\ mem # {}
                  /\ last.op = "call"
                  /\ Cardinality(Full(S, MkCall(S, last.m, last.expr, last.args))) > 1
    IN (EmitOn /\ (Scope = "blocked" => choice)) => PrintT("SCRIPT " \o ToJson(hist'))

----------------------------------------------------------------------------
(* History-based reading of the properties.                                *)

Handled(u) == Cardinality({ i \in DOMAIN mh : mh[i] = u })
HandledBefore(u, i) == Cardinality({ j \in 1 .. (i - 1) : mh[j] = u })

\* position of u in the sequence sid: its rank among the attached expectations in creation order
InSeq(sid) == { u \in DOMAIN S.ex : sid \in SeqIds(S.ex[u]) }
Pos(sid, u) == Cardinality({ v \in InSeq(sid) : v <= u })
MatchesOf(sid) == { i \in DOMAIN mh : mh[i] \in InSeq(sid) }
\* the furthest element that handled a call
Front(sid) == LET P == { Pos(sid, mh[i]) : i \in MatchesOf(sid) } IN IF P = {} THEN 1 ELSE MaxOf(P)

\* C02
CountsAreHistory == \A u \in DOMAIN S.ex : S.ex[u].n = Handled(u) /\ S.ex[u].n <= S.ex[u].mx

\* C05: in every sequence matches never go back, and only satisfied elements are passed
Ordered ==
    \A sid \in DOMAIN S.sq :
      \A i \in MatchesOf(sid) :
        /\ \A j \in MatchesOf(sid) : j < i => Pos(sid, mh[j]) <= Pos(sid, mh[i])
        /\ LET before == { Pos(sid, mh[j]) : j \in { k \in MatchesOf(sid) : k < i } }
               from == IF before = {} THEN 1 ELSE MaxOf(before)
           IN \A v \in InSeq(sid) :
                (from <= Pos(sid, v) /\ Pos(sid, v) < Pos(sid, mh[i])) => HandledBefore(v, i) >= S.ex[v].mn

\* usability, from the history alone
UsableH(u) ==
    /\ Handled(u) < S.ex[u].mx
    /\ \A sid \in SeqIds(S.ex[u]) :
         /\ Pos(sid, u) >= Front(sid)
         /\ \A v \in InSeq(sid) : (Front(sid) <= Pos(sid, v) /\ Pos(sid, v) < Pos(sid, u)) => Handled(v) >= S.ex[v].mn

UsableIsHistory == \A u \in DOMAIN S.ex : Usable(S, S.ex[u]) <=> UsableH(u)

\* C04 and C08
ReportedOnce ==
    /\ \A u \in DOMAIN S.ex : unf[u] = IF ~S.ex[u].alive /\ ~(Handled(u) >= S.ex[u].mn /\ S.ex[u].psat) THEN 1 ELSE 0
    /\ \A u \in DOMAIN S.ex : S.ex[u].alive <=> \E x \in Slots : S.own[x] = u
    /\ \A x, y \in Slots : x # y /\ S.own[x] # 0 => S.own[x] # S.own[y]
    /\ \A sid \in DOMAIN S.sq :
         serr[sid] = IF /\ \A s \in Slots : S.ss[s] # sid
                        /\ \A u \in InSeq(sid) : ~S.ex[u].alive
                        /\ \E u \in InSeq(sid) : Pos(sid, u) >= Front(sid) /\ Handled(u) < S.ex[u].mn
                     THEN 1 ELSE 0

\* C03, C06, C07, C01, C28 as properties of the call transitions
LastOp == hist'[Len(hist')]
IsCall == nops' = nops + 1 /\ LastOp.op = "call"
HandlerOf == IF Len(mh') > Len(mh) THEN mh'[Len(mh')] ELSE 0

CallProps ==
    [][ IsCall =>
          LET c == MkCall(S, LastOp.m, LastOp.expr, LastOp.args)
              C == { u \in DOMAIN S.ex : S.ex[u].alive /\ S.ex[u].mu = c.mu /\ S.ex[u].ar = c.ar
                                         /\ S.ex[u].cat = c.cat /\ S.ex[u].cst = c.cst
                                         /\ (\A i \in DOMAIN S.ex[u].pol : EvalReq(S.ex[u].pol[i], c) = "T") /\ UsableH(u) }
              h == HandlerOf
          IN \* handled if and only if somebody can, by one of them
             /\ (h # 0) <=> (C # {})
             /\ h # 0 => h \in C
             \* without sequences the newest
             /\ (h # 0 /\ \A u \in C : S.ex[u].seqs = << >>) => h = MaxOf(C)
             \* candidates of exactly one and the same sequence: earliest (lazy), latest (greedy)
             /\ \A sid \in DOMAIN S.sq :
                  (h # 0 /\ \A u \in C : SeqIds(S.ex[u]) = {sid}) =>
                     h = (IF S.sq[sid].lazy THEN MinOf(C) ELSE MaxOf(C))
             \* only the handler's count, and only its sequences, change
             /\ \A u \in DOMAIN S.ex : S'.ex[u] = (IF u = h THEN [S.ex[u] EXCEPT !.n = @ + 1] ELSE S.ex[u])
             /\ \A sid \in DOMAIN S.sq : S'.sq[sid] # S.sq[sid] => h # 0 /\ sid \in SeqIds(S.ex[h])
             /\ h = 0 => S' = S
      ]_vars

\* C27: moving or destroying mocks leaves expectations and sequences alone
MockProps ==
    [][ (nops' = nops + 1 /\ LastOp.op \in {"dmock", "mvmock", "mamock", "swmock"}) =>
          S'.ex = S.ex /\ S'.sq = S.sq /\ S'.own = S.own /\ unf' = unf ]_vars

Inv == CountsAreHistory /\ Ordered /\ UsableIsHistory /\ ReportedOnce
=============================================================================
