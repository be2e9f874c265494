------------------------------- MODULE Watcher -------------------------------
(***************************************************************************)
(* Watched objects: lifetime and relocation watchers, alone and combined   *)
(* with a base.  A watcher owns a mock of its own; Mimic is the engine for *)
(* these mocks.                                                            *)
(*                                                                         *)
(* W.S    the state of the engine                                          *)
(* W.ob   object slot -> [kind, val, lt, rl, flag];  kind 0: no object     *)
(*        lt, rl: 0 has no such watcher, 1 active, 2 moved-from            *)
(*        flag: a destruct expectation has been created                    *)
(***************************************************************************)
EXTENDS Mimic

Objs == 0 .. 5
Owns == 0 .. 9
MovedVal == -1

NoObj == [kind |-> 0, val |-> 0, lt |-> 0, rl |-> 0, flag |-> FALSE]
LtSlot(o) == 2 * o
RlSlot(o) == 2 * o + 1

\* 1 LifetimeWatcher, 2 RelocationWatcher, 3 Watched<Base, Lifetime>, 4 Watched<Base, Relocation>,
\* 5 Watched<Base, Relocation, Lifetime>, 6 Watched<VirtualBase, Lifetime, Relocation>, 7 Watched<VirtualBase, Lifetime>,
\* 8 Watched<VirtualBase, Relocation>; with a base whose moves and destruction do not throw: 9 Watched<NBase, Lifetime>,
\* 10 Watched<NBase, Relocation>, 11 Watched<VirtualNBase, Relocation, Lifetime>
HasLt(k) == k \in {1, 3, 5, 6, 7, 9, 11}
HasRl(k) == k \in {2, 4, 5, 6, 8, 10, 11}
HasBase(k) == k \in 3 .. 11
Noexcept(k) == k \in 9 .. 11
Temp == 5
\* the parts in the order in which they are copied and moved
Parts(k) == CASE k = 1 -> << "L" >> [] k = 2 -> << "R" >> [] k \in {3, 7, 9} -> << "L", "B" >> [] k \in {4, 8, 10} -> << "R", "B" >>
              [] k \in {5, 11} -> << "R", "L", "B" >> [] k = 6 -> << "L", "R", "B" >>

W0 == [ S  |-> AddSeq(AddSeq(Empty, 1, TRUE), 2, FALSE), ob |-> [o \in Objs |-> NoObj] ]

\* an outcome: new state, "ok" or how the operation failed, reports in order
Out(W, res, rr) == [W |-> W, res |-> res, rr |-> rr]

Bind(r, F(_)) == IF r.res # "ok" THEN r ELSE LET q == F(r.W) IN Out(q.W, q.res, r.rr \o q.rr)

\* calling the mock in the slot m
CallMock(W, m) ==
    LET c == MkCall(W.S, m, 0, << >>)
        F == Full(W.S, c)
    IN CASE F # {} ->
              LET u == Best(W.S, F) IN
              Out([W EXCEPT !.S = Consume(W.S, u)], IF W.S.ex[u].fin = 9 THEN "exc" ELSE "ok", << << "full", {u} >> >>)
         [] F = {} /\ Inapp(W.S, c) # {} -> Out(W, "inapp", << << "inapp", Inapp(W.S, c) >> >>)
         [] OTHER -> Out(W, "none", << << "none", {} >> >>)

Fresh(W, m) == [W EXCEPT !.S = AddMock(W.S, m, 12)]
Drop(W, m)  == [W EXCEPT !.S = DropMock(W.S, m)]
Move(W, m, m2) == IF m = m2 THEN W ELSE [W EXCEPT !.S = MoveMock(W.S, m, m2)]

\* a lifetime watcher ends: reports unless moved-from; its mock is gone in any case
EndLt(W, o) ==
    IF W.ob[o].lt # 1 THEN Out(W, "ok", << >>)
    ELSE LET r == CallMock(W, LtSlot(o)) IN [r EXCEPT !.W = [Drop(r.W, LtSlot(o)) EXCEPT !.ob[o].lt = 2]]

----------------------------------------------------------------------------
Create(W, o, kind, val) ==
    LET W1 == IF HasLt(kind) THEN Fresh(W, LtSlot(o)) ELSE W
        W2 == IF HasRl(kind) THEN Fresh(W1, RlSlot(o)) ELSE W1
    IN Out([W2 EXCEPT !.ob[o] = [kind |-> kind, val |-> IF HasBase(kind) THEN val ELSE 0,
                                 lt |-> IF HasLt(kind) THEN 1 ELSE 0,
                                 rl |-> IF HasRl(kind) THEN 1 ELSE 0, flag |-> FALSE]], "ok", << >>)

Destroy(W, o) ==
    LET r == EndLt(W, o) IN
    [r EXCEPT !.W = [Drop(Drop(r.W, LtSlot(o)), RlSlot(o)) EXCEPT !.ob[o] = NoObj]]

\* a copy is a fresh object with the value of the source
CopyCtor(W, a, b) == Create(W, b, W.ob[a].kind, W.ob[a].val)

CopyPart(W, a, b, p) ==
    CASE p = "L" -> Bind(EndLt(W, b), LAMBDA V : Out([Fresh(V, LtSlot(b)) EXCEPT !.ob[b].lt = 1, !.ob[b].flag = FALSE], "ok", << >>))
      [] p = "R" -> Out([Fresh(W, RlSlot(b)) EXCEPT !.ob[b].rl = 1], "ok", << >>)
      [] p = "B" -> Out([W EXCEPT !.ob[b].val = W.ob[a].val], "ok", << >>)

MovePart(W, a, b, p) ==
    CASE p = "L" ->
           IF a = b THEN Out(W, "ok", << >>)
           ELSE Out([ (IF W.ob[a].lt = 1 THEN Move(W, LtSlot(a), LtSlot(b)) ELSE Drop(W, LtSlot(b)))
                        EXCEPT !.ob[b].lt = W.ob[a].lt, !.ob[b].flag = W.ob[a].flag, !.ob[a].lt = 2 ], "ok", << >>)
      [] p = "R" ->
           Bind(CallMock(W, RlSlot(a)),
                LAMBDA V : IF a = b THEN Out(V, "ok", << >>)
                           ELSE Out([Move(V, RlSlot(a), RlSlot(b)) EXCEPT !.ob[b].rl = 1, !.ob[a].rl = 2], "ok", << >>))
      [] p = "B" -> IF a = b THEN Out(W, "ok", << >>)
                    ELSE Out([W EXCEPT !.ob[b].val = W.ob[a].val, !.ob[a].val = MovedVal], "ok", << >>)

RECURSIVE CopyParts(_, _, _, _), MoveParts(_, _, _, _)
CopyParts(W, a, b, ps) == IF ps = << >> THEN Out(W, "ok", << >>)
    ELSE Bind(CopyPart(W, a, b, Head(ps)), LAMBDA V : CopyParts(V, a, b, Tail(ps)))
MoveParts(W, a, b, ps) == IF ps = << >> THEN Out(W, "ok", << >>)
    ELSE Bind(MovePart(W, a, b, Head(ps)), LAMBDA V : MoveParts(V, a, b, Tail(ps)))

CopyAssign(W, a, b) == CopyParts(W, a, b, Parts(W.ob[a].kind))
MoveAssign(W, a, b) == MoveParts(W, a, b, Parts(W.ob[a].kind))

\* if the construction fails nothing has been created
MoveCtor(W, a, b) ==
    LET k == W.ob[a].kind
        shell == [kind |-> k, val |-> 0, lt |-> IF HasLt(k) THEN 2 ELSE 0, rl |-> IF HasRl(k) THEN 2 ELSE 0, flag |-> FALSE]
        r == MoveParts([W EXCEPT !.ob[b] = shell], a, b, Parts(k))
    IN IF r.res = "ok" THEN r ELSE [r EXCEPT !.W.ob[b] = NoObj]

\* an object gets other storage, as in a growing container: moved if that can not throw, otherwise copied
Rename(W, t, o) ==
    LET V == Move(Move(W, LtSlot(t), LtSlot(o)), RlSlot(t), RlSlot(o))
    IN [V EXCEPT !.ob[o] = V.ob[t], !.ob[t] = NoObj]
Grow(W, o) ==
    Bind(IF Noexcept(W.ob[o].kind) THEN MoveCtor(W, o, Temp) ELSE CopyCtor(W, o, Temp),
         LAMBDA V : Bind(Destroy(V, o), LAMBDA U : Out(Rename(U, Temp, o), "ok", << >>)))

Swap(W, a, b) ==
    Bind(MoveCtor(W, a, Temp), LAMBDA V1 : Bind(MoveAssign(V1, b, a), LAMBDA V2 : Bind(MoveAssign(V2, Temp, b), LAMBDA V3 : Destroy(V3, Temp))))

----------------------------------------------------------------------------
(* Expectations.  q: sequence slots; fin: 9 throws.                        *)

ExpDesc(x, m, tk, ta, tb, q, fin) ==
    [ x |-> x, m |-> m, expr |-> 0, ar |-> 0, argk |-> 0, aa |-> << >>, pol |-> 0, pa |-> << <<0, 0, 1>> >>,
      psat |-> TRUE, fin |-> fin, sfx |-> << >>, tk |-> tk, ta |-> ta, tb |-> tb, seqs |-> q ]

ExpectDestruct(W, o, x, q, fin) ==
    IF W.ob[o].flag THEN Out(W, "logic", << >>)
    ELSE Out([W EXCEPT !.ob[o].flag = TRUE, !.S = AddExp(W.S, ExpDesc(x, LtSlot(o), 5, 0, 0, q, fin))], "ok", << >>)

ExpectRelocate(W, o, x, mn, mx, q, fin) ==
    Out([W EXCEPT !.S = AddExp(W.S, ExpDesc(x, RlSlot(o), 1, mn, mx, q, fin))], "ok", << >>)

DropExp(W, x) ==
    LET u == W.S.own[x] IN
    Out([W EXCEPT !.S = [Retire(W.S, u) EXCEPT !.own[x] = 0]], "ok",
        IF Sat(W.S.ex[u]) THEN << >> ELSE << << "unf", {u} >> >>)

----------------------------------------------------------------------------
(* Operations as records [op, a, b, x, mn, mx, q, fin, val, unw].          *)
(* unw = 1: the operation runs while the stack is unwound; it must succeed.*)

IsObj(W, o) == W.ob[o].kind # 0

Do(W, op) ==
    CASE op.op = "new" -> Create(W, op.a, op.kind, op.val)
      [] op.op = "del" -> Destroy(W, op.a)
      [] op.op = "cc"  -> CopyCtor(W, op.a, op.b)
      [] op.op = "ca"  -> CopyAssign(W, op.a, op.b)
      [] op.op = "mc"  -> MoveCtor(W, op.a, op.b)
      [] op.op = "ma"  -> MoveAssign(W, op.a, op.b)
      [] op.op = "grow" -> Grow(W, op.a)
      [] op.op = "swap" -> Swap(W, op.a, op.b)
      [] op.op = "xd"  -> ExpectDestruct(W, op.a, op.x, op.q, op.fin)
      [] op.op = "xr"  -> ExpectRelocate(W, op.a, op.x, op.mn, op.mx, op.q, op.fin)
      [] op.op = "xdel" -> DropExp(W, op.x)

\* what a user may do: no relocation of, and no expectation on, what has been moved away; no failure where C++ terminates
Allowed(W, op) ==
    /\ CASE op.op = "new" -> ~IsObj(W, op.a)
         [] op.op = "del" -> IsObj(W, op.a)
         [] op.op = "cc"  -> IsObj(W, op.a) /\ ~IsObj(W, op.b)
         [] op.op = "ca"  -> IsObj(W, op.a) /\ W.ob[op.b].kind = W.ob[op.a].kind
         [] op.op = "mc"  -> IsObj(W, op.a) /\ ~IsObj(W, op.b) /\ W.ob[op.a].rl # 2
         [] op.op = "ma"  -> IsObj(W, op.a) /\ W.ob[op.b].kind = W.ob[op.a].kind /\ W.ob[op.a].rl # 2
         [] op.op = "grow" -> IsObj(W, op.a) /\ W.ob[op.a].rl # 2
         [] op.op = "swap" -> op.a # op.b /\ IsObj(W, op.a) /\ W.ob[op.b].kind = W.ob[op.a].kind /\ W.ob[op.a].rl # 2 /\ W.ob[op.b].rl # 2
         [] op.op = "xd"  -> W.ob[op.a].lt = 1 /\ W.S.own[op.x] = 0
         [] op.op = "xr"  -> W.ob[op.a].rl = 1 /\ W.S.own[op.x] = 0
         [] op.op = "xdel" -> W.S.own[op.x] # 0
    /\ LET r == Do(W, op) IN
       /\ op.unw = 1 => r.res = "ok"
       /\ op.op \in {"grow", "swap"} => r.res = "ok"
       /\ (op.op \in {"mc", "ma", "del"} /\ Noexcept(W.ob[op.a].kind)) => r.res = "ok"
       /\ (op.op \in {"mc", "ma"} /\ W.ob[op.a].kind = 6) => r.res = "ok"

=============================================================================
