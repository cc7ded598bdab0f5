----------------------------- MODULE Autosweep -----------------------------
(* Automatic sweeps of one variable.  In logarithms (base 2, rational) the
   optimal cost of the models used here is the largest of some lines in the
   swept variable, and a solution's sensitivity to it is the slope of a line
   that is largest there.                                                    *)
EXTENDS Rational, FiniteSetsExt, SequencesExt

LineAt(l, t) == RAdd(l.g, RMul(l.a, t))
\* L: sequence of lines [a, g]
Cost(L, t) == FoldLeft(LAMBDA acc, l : RMax(acc, LineAt(l, t)), LineAt(L[1], t), L)
Slopes(L, t) == {L[i].a : i \in {j \in 1..Len(L) : LineAt(L[j], t) = Cost(L, t)}}
\* a segment: ends [t, y, s] (position, cost, slope)
Mid(u, v) == RMul(RAdd(u, v), <<1, 2>>)
Cross(p, q) == RDiv(RAdd(RSub(q.y, p.y), RSub(RMul(p.t, p.s), RMul(q.t, q.s))), RSub(p.s, q.s))
Inside(p, q, x) == RLt(p.t, x) /\ RLt(x, q.t)
Straight(p, q) == p.s = q.s \/ ~Inside(p, q, Cross(p, q))
\* the chord from above, the tangents from below
Chord(p, q, t) == RAdd(p.y, RMul(RSub(q.y, p.y), RDiv(RSub(t, p.t), RSub(q.t, p.t))))
Tang(p, t) == RAdd(p.y, RMul(p.s, RSub(t, p.t)))
\* where the bounds are furthest apart, and by how much
Worst(p, q) == IF Straight(p, q) THEN Mid(p.t, q.t) ELSE Cross(p, q)
Gap(p, q) == IF Straight(p, q) THEN RZero ELSE RSub(Chord(p, q, Cross(p, q)), Tang(p, Cross(p, q)))
Upper(p, q, t) == Chord(p, q, t)
Lower(p, q, t) == IF Straight(p, q) THEN Chord(p, q, t) ELSE RMax(Tang(p, t), Tang(q, t))
\* half the gap is the error made by the middle
NeedsSplit(p, q, tol) == RLe(tol, RMul(Gap(p, q), <<1, 2>>))
CloseEnough(p, q, tol) == RLe(RMul(Gap(p, q), <<1, 2>>), tol)
=============================================================================
