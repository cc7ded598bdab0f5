--------------------------- MODULE AutosweepLaws ---------------------------
(* Refinement of an interval until every piece is close enough, in any order:
   it ends, its pieces partition the interval, and their bounds hold.        *)
EXTENDS Autosweep
CONSTANTS As, Gs, Lo, Hi, Tol
VARIABLES L, pts     \* the model's lines; solved points, as a set of ends
vars == <<L, pts>>
TolV == <<1, Tol>>
Lines == {[a |-> <<a, 1>>, g |-> <<g, 2>>] : a \in As, g \in Gs}
SmallAs == {-1, 0, 1, 3}
SmallGs == {-3, 0, 1}
Left == -3
Ends(t) == {[t |-> t, y |-> Cost(L, t), s |-> s] : s \in Slopes(L, t)}
Init == /\ L \in {<<a, b, c>> : a, b, c \in Lines}
        /\ \E p \in Ends(<<Lo, 1>>), q \in Ends(<<Hi, 1>>) : pts = {p, q}
Adjacent(p, q) == RLt(p.t, q.t) /\ \A r \in pts : ~(RLt(p.t, r.t) /\ RLt(r.t, q.t))
Split(p, q) == Adjacent(p, q) /\ NeedsSplit(p, q, TolV) /\ \E r \in Ends(Worst(p, q)) : pts' = pts \cup {r} /\ UNCHANGED L
Next == \E p, q \in pts : Split(p, q)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Probe == {<<n, 2>> : n \in (2*Lo)..(2*Hi)}
\* bounds hold in every piece, split or not
Bounded == \A p, q \in pts : Adjacent(p, q) => \A t \in Probe : RLe(p.t, t) /\ RLe(t, q.t) =>
             RLe(Lower(p, q, t), Cost(L, t)) /\ RLe(Cost(L, t), Upper(p, q, t))
\* a cross inside is really between the lines, and the gap the largest distance
GapLaw == \A p, q \in pts : Adjacent(p, q) => RLe(RZero, Gap(p, q)) /\
             \A t \in Probe : RLe(p.t, t) /\ RLe(t, q.t) => RLe(RSub(Upper(p, q, t), Lower(p, q, t)), Gap(p, q))
OnePoint == \A p, q \in pts : p.t = q.t => p = q
\* every split point is a kink of the cost, so there are never more than these
Few == Cardinality(pts) <= 2 + 3
Done == \A p, q \in pts : Adjacent(p, q) => CloseEnough(p, q, TolV)
Terminates == <>[]Done
=============================================================================
