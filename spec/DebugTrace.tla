------------------------------ MODULE DebugTrace ------------------------------
(* Diagnosing a model that does not solve.  First every constant may change and
   every variable is given extreme bounds; if that is not feasible either, every
   constraint may be loosened (and the variables stay bounded).  The diagnosis
   is the solution of the first of the two that has one, and says which of the
   bounds, constants or constraints it did not leave alone.
   EPS stands for the bound 1e-30 (the other is 1/EPS).                        *)
EXTENDS RelaxTrace
EPS == NV
DebugSymbolic == {EPS}

\* variables to bound: those of the model that have no substitution
ToBound(M, S) == (PVars(M.cost) \cup UNION {PVars(M.cons[k].l) \cup PVars(M.cons[k].r) : k \in 1..Len(M.cons)}) \ DOMAIN S
Bnds(i) == <<[rel |-> ">=", l |-> Unit(i, 1), r |-> Unit(EPS, 1), sig |-> FALSE], [rel |-> "<=", l |-> Unit(i, 1), r |-> Unit(EPS, -1), sig |-> FALSE]>>
RECURSIVE AllBnds(_, _)
AllBnds(order, k) == IF k > Len(order) THEN <<>> ELSE Bnds(order[k]) \o AllBnds(order, k + 1)

\* the orders in which bounds and relaxations come are free, so they are those of the trace where it shows them
Order(M, S, e) == IF e.border # <<>> THEN e.border ELSE SetToSeq(ToBound(M, S))
Slots1(S, e) == IF e.slots # <<>> /\ e.stage = 1 THEN e.slots
                ELSE LET q == SetToSeq(ToRelax(S, e)) IN [j \in 1..Len(q) |-> <<q[j], 9 + j, 9 + Len(q) + j>>]
Slots2(M, e) == IF e.slots # <<>> /\ e.stage = 2 THEN e.slots ELSE [j \in 1..Len(M.cons) |-> <<0, 9 + j, 0>>]
Groups1(e, n) == IF e.order # <<>> THEN e.order ELSE [j \in 1..3 * n |-> <<1 + ((j - 1) \div 3), 1 + ((j - 1) % 3)>>]
First(M, S, e) == LET sl == Slots1(S, e) IN
    Relaxed([M EXCEPT !.cons = @ \o AllBnds(Order(M, S, e), 1)], S, [e EXCEPT !.how = "constants", !.slots = sl, !.order = Groups1(e, Len(sl)), !.pow = 30])
Second(M, S, e) == LET R == Relaxed(M, S, [e EXCEPT !.how = "each", !.slots = Slots2(M, e), !.pow = 30]) IN
    [R EXCEPT !.M.cons = @ \o AllBnds(Order(M, S, e), 1)]
Asis(M, S) == [M |-> M, S |-> S]
NoMove(R) == [R EXCEPT !.M.move = {}]

\* what the diagnosis says about bounds
Nearest(e, side) == {t[1] : t \in {e.near[j] : j \in 1..Len(e.near)} \cap {u \in {e.near[j] : j \in 1..Len(e.near)} : u[2] = side /\ u[3] <= 20}}
Firm(M, S, e, off, k, ns, side) == ConLambda(M, off + 2 * k - (IF side = "lower" THEN 1 ELSE 0), ns[off + 2 * k - (IF side = "lower" THEN 1 ELSE 0)])[1] > 0
BoundCat(c) == CASE c = "sensitive to lower" -> <<"s", "lower">> [] c = "sensitive to upper" -> <<"s", "upper">>
                 [] c = "value near lower" -> <<"v", "lower">> [] c = "value near upper" -> <<"v", "upper">> [] OTHER -> <<"", "">>
BoundSaid(r, c) == {q \in 1..Len(r.warn) : BoundCat(r.warn[q].cat) = c}
BoundWarnings(M, S, R, P, e, r, off) ==
    LET o == Order(M, S, e)
        ns == NuSeqs(R.M, P, AnyNus(P, e, e.call))
        due(c) == IF c[1] = "v" THEN Nearest(e, c[2]) ELSE {o[k] : k \in {q \in 1..Len(o) : Firm(R.M, S, e, off, q, ns, c[2])}}
        cs == {<<a, b>> : a \in {"s", "v"}, b \in {"lower", "upper"}}
    IN IF \E c \in cs : due(c) # {} /\ BoundSaid(r, c) = {} THEN "a variable at an extreme bound is not reported"
       ELSE IF \E c \in cs : Cardinality(BoundSaid(r, c)) > 1 THEN "a bound is reported twice"
       ELSE IF \E c \in cs, q \in 1..Len(r.warn) : q \in BoundSaid(r, c) /\ ToSet(r.warn[q].a) # due(c) THEN "variables are reported at a bound they are not at"
       ELSE "ok"
OtherWarnings(r) == [r EXCEPT !.warn = SelectSeq(@, LAMBDA w : BoundCat(w.cat)[1] = "")]

SolvedStage(M, S, e, R0, k) ==
    LET R == NoMove(R0)
        s == Consts(R.S, <<>>)
        P == Prog(R.M, s)
        r == e.out.res[1]
        off == IF k = 1 THEN Len(M.cons) ELSE Len(R.M.cons) - 2 * Len(Order(M, S, e))
        v == Call(P, e.call)
        w == Result(R.M, R.S, s, P, e, e.call, r)
        b == BoundWarnings(M, S, R, P, e, r, off)
    IN IF e.stage # k THEN "the solution is that of another relaxation"
       ELSE IF ToSet(e.border) # ToBound(M, S) \/ Len(e.border) # Cardinality(ToBound(M, S)) THEN "other variables are bounded than should be"
       ELSE IF k = 1 /\ Relaxing(M, S, e) # "ok" THEN Relaxing(M, S, e)
       ELSE IF k = 2 /\ Len(e.slots) # Len(M.cons) THEN "not one relaxation variable per constraint"
       ELSE IF v # "ok" THEN v ELSE IF w # "ok" THEN w ELSE IF b # "ok" THEN b
       ELSE RelaxWarnings(R.M, ValMap(r.vals), OtherWarnings(r))
\* one call after the other; j: the next call, k: the stage (0: the model itself)
ToldOf(e, first, second) ==
    IF e.verb = 0 THEN {"none"}
    ELSE (IF first THEN {"constants"} ELSE {}) \cup (IF second THEN {"constraints"} ELSE {})
         \cup (IF e.out.t # "ok" THEN {} ELSE IF e.out.res[1].warn = <<>> THEN {"seems"} ELSE {"modified"})
RECURSIVE Stages(_, _, _, _, _)
Stages(M, S, e, k, j) ==
    IF k = 3 THEN IF j <= Len(e.calls) THEN "the solver was called after both relaxations failed"
                  ELSE IF e.via = "solve" THEN (IF Raises(e, {ErrorOf(e.calls[1].ok)}) THEN "ok" ELSE "a model that cannot be helped: " \o e.out.t \o " " \o e.out.x)
                  ELSE IF e.out.t = "none" THEN "ok" ELSE "a model that cannot be helped: " \o e.out.t \o " " \o e.out.x
    ELSE
    LET R == IF k = 0 THEN Asis(M, S) ELSE IF k = 1 THEN First(M, S, e) ELSE Second(M, S, e)
        st == Prog(R.M, Consts(R.S, <<>>)).status
    IN IF k = 0 /\ st # "ok" THEN (IF e.out.t = "raise" /\ e.calls = <<>> THEN "ok" ELSE "a model that is no program was solved")
       ELSE IF st = "infeasible" \/ (k = 2 /\ M.cons = <<>>) THEN Stages(M, S, e, k + 1, j)
       ELSE IF st # "ok" THEN "ok"      \* a signomial program: not followed further
       ELSE IF j > Len(e.calls) THEN "a relaxation was not solved: " \o e.out.t \o " " \o e.out.x
       ELSE IF ToSet(e.calls[j].kw) # (IF e.via = "solve" /\ k > 0 THEN {} ELSE Options(e)) THEN "the solver got other options than this solve's"
       ELSE IF e.calls[j].ok # "ok" THEN Stages(M, S, e, k + 1, j + 1)
       ELSE IF j < Len(e.calls) THEN "solving went on after a solution was found"
       ELSE IF e.out.t # "ok" THEN "a feasible relaxation was found: " \o e.out.t \o " " \o e.out.x
       ELSE SolvedStage(M, S, e, R, k)
\* which stages failed
RECURSIVE Failed(_, _, _, _, _)
Failed(M, S, e, k, j) ==
    LET R == IF k = 1 THEN First(M, S, e) ELSE Second(M, S, e)
        st == Prog(R.M, Consts(R.S, <<>>)).status
    IN IF k = 3 \/ (k = 2 /\ M.cons = <<>>) THEN {} ELSE IF st = "infeasible" THEN {k} \cup Failed(M, S, e, k + 1, j)
       ELSE IF e.calls[j].ok # "ok" THEN {k} \cup Failed(M, S, e, k + 1, j + 1) ELSE {}
Debug(M, S, e) ==
    IF e.restored # "" THEN "after debugging: " \o e.restored
    ELSE LET from == IF e.via = "solve" THEN 0 ELSE 1
             v == Stages(M, S, e, from, 1)
         IN IF v # "ok" \/ e.calls = <<>> THEN v
            ELSE LET st(R) == Prog(R.M, Consts(R.S, <<>>)).status IN
            IF st(First(M, S, e)) \notin {"ok", "infeasible"} \/ st(Second(M, S, e)) \notin {"ok", "infeasible"} THEN "ok"
            ELSE LET f == Failed(M, S, e, 1, 2 - from) IN
            IF e.verb # 0 /\ ToSet(e.told) # ToldOf(e, 1 \in f, 2 \in f) THEN "what is printed is not what happened"
            ELSE IF e.untold # "" THEN e.untold ELSE "ok"
DJudge(e) == IF e.op = "debug" THEN Debug(mods[1].M, mods[1].S, e) ELSE Judge(e)
DNext == /\ bad = "" /\ l <= Len(T.ev)
         /\ LET e == T.ev[l]
                v == DJudge(e)
            IN /\ bad' = IF v = "ok" THEN "" ELSE v
               /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
               /\ mods' = IF v # "ok" \/ e.op = "debug" THEN mods ELSE [mods EXCEPT ![1].S = NextSubs(e, @)]
               /\ l' = l + 1 /\ UNCHANGED <<tid, subs, spot>>
DSpec == RInit /\ [][DNext]_<<tid, l, mods, bad, subs, spot>>
=============================================================================
