------------------------------ MODULE MCWatcher ------------------------------
(***************************************************************************)
(* Explores the watchers; the properties are stated over the history of    *)
(* objects, identities and reports.  SCOPE selects the kinds of objects,   *)
(* SIM=1 prints random behaviours of length DEPTH, otherwise every         *)
(* transition is printed once.                                             *)
(***************************************************************************)
EXTENDS Watcher, Json, IOUtils

Scope == IOEnv.SCOPE
Depth == atoi(IOEnv.DEPTH)
Sim == IOEnv.SIM = "1"

VARIABLES W, hist, nops, last, ltm
\* last: the outcome of the last operation; ltm: the mocks that have been those of a lifetime watcher
vars == << W, hist, nops, last, ltm >>

Kinds == CASE Scope = "life" -> {1, 3, 7} [] Scope = "reloc" -> {2, 4, 8} [] Scope = "both" -> {5} [] Scope = "virt" -> {6}
           [] Scope = "nolife" -> {9} [] Scope = "noreloc" -> {10} [] Scope = "noboth" -> {11} [] OTHER -> 1 .. 11
NObj == IF Sim THEN 4 ELSE 2
NExp == IF Sim THEN 7 ELSE 2
Os == 0 .. (NObj - 1)
Xs == 0 .. (NExp - 1)
Qs == IF Sim THEN { << >>, <<1>>, <<2>>, <<1, 2>> } ELSE { << >>, <<1>> }
Fins == IF Sim THEN {0, 9} ELSE {0}
Tms == IF Sim THEN { <<1, 1>>, <<0, 1>>, <<0, INTMAX>>, <<2, 2>>, <<2, 3>>, <<1, 5>> } ELSE { <<1, 1>>, <<0, 2>> }
Unws == IF Sim THEN {0, 1} ELSE {0}

Op(op, a, b, x, u) == [op |-> op, a |-> a, b |-> b, x |-> x, mn |-> 0, mx |-> 0, q |-> << >>, fin |-> 0, kind |-> 0, val |-> 0, unw |-> u]

\* free slots are interchangeable: use the lowest
FreeO(w) == { o \in Os : ~IsObj(w, o) }
FreeX(w) == { x \in Xs : w.S.own[x] = 0 }
Least(A) == IF A = {} THEN {} ELSE { MinOf(A) }

OpsOf(k) ==
    CASE k = "new"  -> { [Op("new", o, 0, 0, 0) EXCEPT !.kind = kk, !.val = o + 10] : o \in Least(FreeO(W)), kk \in Kinds }
      [] k = "del"  -> { Op("del", o, 0, 0, u) : o \in Os, u \in Unws }
      [] k = "con"  -> { Op(c, a, b, 0, u) : c \in {"cc", "mc"}, a \in Os, b \in Least(FreeO(W)), u \in Unws }
      [] k = "asg"  -> { Op(c, a, b, 0, u) : c \in {"ca", "ma"}, a \in Os, b \in Os, u \in Unws }
      [] k = "mem"  -> { Op("grow", o, 0, 0, 0) : o \in Os } \union { Op("swap", a, b, 0, 0) : a \in Os, b \in Os }
      [] k = "xd"   -> { [Op("xd", o, 0, x, 0) EXCEPT !.q = q, !.fin = f] : o \in Os, x \in Least(FreeX(W)), q \in Qs, f \in Fins }
      [] k = "xr"   -> { [Op("xr", o, 0, x, 0) EXCEPT !.q = q, !.fin = f, !.mn = t[1], !.mx = t[2]] :
                           o \in Os, x \in Least(FreeX(W)), q \in Qs, f \in Fins, t \in Tms }
      [] k = "xdel" -> { Op("xdel", 0, 0, x, u) : x \in Xs, u \in Unws }
Classes == << "new", "del", "con", "asg", "xd", "xr", "xdel", "mem", "con", "asg", "xr", "xd" >>

Init == W = W0 /\ hist = << >> /\ nops = 0 /\ last = Out(W0, "ok", << >>) /\ ltm = {}

Lives(w) == { w.S.mk[LtSlot(o)].u : o \in Objs } \ {0}

Perform(o) ==
    LET r == Do(W, o) IN
    /\ (~Sim => Len(r.W.S.ex) <= 3)
    /\ W' = r.W /\ last' = r /\ hist' = Append(hist, o) /\ nops' = nops + 1
    /\ ltm' = ltm \union Lives(r.W)

\* at random, tried again if not allowed
SimStep ==
    \E k \in { RandomElement(DOMAIN Classes) } :
      \E o \in (IF OpsOf(Classes[k]) = {} THEN { Op("none", 0, 0, 0, 0) } ELSE { RandomElement(OpsOf(Classes[k])) }) :
        IF o.op # "none" /\ Allowed(W, o) THEN Perform(o) ELSE UNCHANGED vars

Next ==
    /\ nops < Depth
    /\ IF Sim THEN SimStep
       ELSE \E k \in { Classes[i] : i \in DOMAIN Classes } : \E o \in { p \in OpsOf(k) : Allowed(W, p) } : Perform(o)

Spec == Init /\ [][Next]_vars
View == W
\* identities are only names and grow without need; the view keeps their order of creation in S.nm
Bound == Sim => (nops = Depth => PrintT("SCRIPT " \o ToJson(hist)))
Emit == ~Sim => PrintT("SCRIPT " \o ToJson(hist'))

----------------------------------------------------------------------------
\* no two objects share a watcher's mock, and only active watchers have one
Owned ==
    /\ \A a, b \in DOMAIN W.S.mk : a # b /\ W.S.mk[a].u # 0 => W.S.mk[a].u # W.S.mk[b].u
    /\ \A o \in Objs : /\ (W.S.mk[LtSlot(o)].u # 0) <=> (W.ob[o].lt = 1)
                       /\ (W.S.mk[RlSlot(o)].u # 0) <=> (W.ob[o].rl = 1)

\* C18: an expectation of a destruction handles at most one, and then its object is gone
DestructOnce ==
    \A u \in DOMAIN W.S.ex : LET e == W.S.ex[u] IN
        e.mu \in ltm => e.n \in {0, 1} /\ (e.n = 1 => \A o \in Objs : W.S.mk[LtSlot(o)].u # e.mu)

\* the transition properties, stated on the operation, its outcome and the states around it
Step ==
    [][ nops' > nops => LET op == hist'[nops'] r == last' IN
        \* C18: exactly one report per destruction of an active lifetime watcher, none for a shell
        /\ op.op = "del" => Len(r.rr) = (IF W.ob[op.a].lt = 1 THEN 1 ELSE 0)
        \* C18: an assigned copy ends the watcher that was there
        /\ (op.op = "ca" /\ W.ob[op.b].lt = 1) => Len(r.rr) = 1
        \* C18: moves never report a destruction, C19: they report exactly one relocation if relocations are watched
        /\ op.op \in {"mc", "ma"} => Len(r.rr) = (IF HasRl(W.ob[op.a].kind) THEN 1 ELSE 0)
        \* C19: copies never report a relocation
        /\ op.op = "cc" => r.rr = << >>
        \* the pending expectations travel with the identity of the mocks
        /\ (op.op \in {"mc", "ma"} /\ r.res = "ok" /\ op.a # op.b) =>
              /\ W'.S.mk[LtSlot(op.b)] = W.S.mk[LtSlot(op.a)] /\ W'.S.mk[RlSlot(op.b)] = W.S.mk[RlSlot(op.a)]
              /\ W'.ob[op.b].lt = W.ob[op.a].lt /\ W'.ob[op.b].flag = W.ob[op.a].flag
              /\ (HasBase(W.ob[op.a].kind) => W'.ob[op.b].val = W.ob[op.a].val)
              /\ W'.ob[op.a].lt # 1 /\ W'.ob[op.a].rl # 1
        \* a failed relocation moves nothing
        /\ (op.op \in {"mc", "ma"} /\ r.res # "ok") => [W'.S EXCEPT !.ex = W.S.ex, !.sq = W.S.sq] = W.S /\ W'.ob = W.ob
        \* copies have no expectations
        /\ (op.op \in {"cc", "ca"} /\ r.res = "ok") =>
              \A u \in DOMAIN W'.S.ex : W'.S.ex[u].mu \notin ({ W'.S.mk[LtSlot(op.b)].u, W'.S.mk[RlSlot(op.b)].u } \ {0})
        \* expectations on one object twice
        /\ op.op = "xd" => (r.res = "logic" <=> W.ob[op.a].flag)
        \* other storage: the object keeps its expectations if it is moved, and loses them otherwise
        /\ op.op = "grow" =>
              IF Noexcept(W.ob[op.a].kind)
              THEN /\ Len(r.rr) = (IF HasRl(W.ob[op.a].kind) THEN 1 ELSE 0)
                   /\ [W'.S EXCEPT !.ex = W.S.ex, !.sq = W.S.sq] = W.S /\ W'.ob = W.ob
              ELSE Len(r.rr) = (IF W.ob[op.a].lt = 1 THEN 1 ELSE 0)
        /\ op.op = "swap" =>
              /\ Len(r.rr) = (IF HasRl(W.ob[op.a].kind) THEN 3 ELSE 0)
              /\ W'.ob = [W.ob EXCEPT ![op.a] = W.ob[op.b], ![op.b] = W.ob[op.a]]
              /\ W'.S.mk[LtSlot(op.a)] = W.S.mk[LtSlot(op.b)] /\ W'.S.mk[LtSlot(op.b)] = W.S.mk[LtSlot(op.a)]
              /\ W'.S.mk[RlSlot(op.a)] = W.S.mk[RlSlot(op.b)] /\ W'.S.mk[RlSlot(op.b)] = W.S.mk[RlSlot(op.a)]
        \* nothing but the operation on an object reports
        /\ op.op \in {"new", "xd", "xr"} => r.rr = << >>
      ]_vars

Inv == Owned /\ DestructOnce
=============================================================================
