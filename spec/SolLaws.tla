------------------------------ MODULE SolLaws ------------------------------
(* Laws of the operators on solutions, over all stacks of up to three points. *)
EXTENDS Sol
CONSTANT Vals
VARIABLE sols
Keys == <<[d |-> "", n |-> "cost", ksh |-> <<>>], [d |-> "", n |-> "soltime", ksh |-> <<>>],
          [d |-> "variables", n |-> "v[:]", ksh |-> <<2>>], [d |-> "sensitivities/constraints", n |-> "x >= 1", ksh |-> <<>>]>>
Entry(k, a, b) == [d |-> Keys[k].d, n |-> Keys[k].n, ksh |-> Keys[k].ksh, sh |-> Keys[k].ksh, v |-> IF Keys[k].ksh = <<>> THEN <<a>> ELSE <<a, b>>]
One == {<<Entry(1, f[1], "0"), Entry(2, f[1], "0"), Entry(3, f[2], f[3]), Entry(4, f[3], "0")>> : f \in [1..3 -> Vals]}
Init == sols \in {<<a>> : a \in One}
Next == Len(sols) < 3 /\ \E a \in One : sols' = Append(sols, a)
Spec == Init /\ [][Next]_sols
St == Stack(sols)
PointOfStack == \A i \in 1..Len(sols) : Point(St, i) = sols[i]
PointOfPoint == \A i \in 1..Len(sols) : Point(Point(St, i), 1) = Point(St, i)
BareCommutes == \A i \in 1..Len(sols) : Bare(Point(St, i)) = Point(Bare(St), i) /\ Bare(Bare(St)) = Bare(St)
TimelessCommutes == \A i \in 1..Len(sols) : Timeless(Point(St, i)) = Point(Timeless(St), i)
ElementCommutes == \A k \in Find(St, "variables", "v[:]"), p \in 0..1 :
    LET all == Element(St[k], p) IN
    /\ all.sh = <<Len(sols)>>
    /\ \A i \in 1..Len(sols) : <<all.v[i]>> = Element(Point(St, i)[k], p).v /\ Element(Point(St, i)[k], p).sh = <<>>
WholeIsAll == \A k \in 1..Len(St) : Element(St[k], -1) = [sh |-> St[k].sh, v |-> St[k].v] /\ Len(St[k].v) = Prod(St[k].sh)
=============================================================================
