-------------------------------- MODULE Sol --------------------------------
(* What a solution holds, and what may be done with it.

   A solution is a sequence of entries: [d: the dictionary (e.g. "variables",
   "sensitivities/constants"), n: the key's name, ksh: the shape of the key
   (<<>> unless it is a vector), sh: the shape of the value, v: its numbers].
   In a solution of n points an entry of shape <<n>> \o ksh is swept, and any
   other is the same at every point.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Swept(e) == Len(e.sh) = Len(e.ksh) + 1
Each(e) == Len(e.v) \div Head(e.sh)           \* how many numbers at one point
\* one point of a sweep
PointEntry(e, i) == IF ~Swept(e) THEN e
                    ELSE [e EXCEPT !.sh = Tail(@), !.v = SubSeq(@, (i-1)*Each(e) + 1, i*Each(e))]
Point(ent, i) == [k \in 1..Len(ent) |-> PointEntry(ent[k], i)]
\* a solution saved without its constraints
Bare(ent) == SelectSeq(ent, LAMBDA e : e.d # "sensitivities/constraints")
\* entries that depend only on the model and not on when it was solved
Timeless(ent) == SelectSeq(ent, LAMBDA e : ~(e.d = "" /\ e.n = "soltime"))
Find(ent, d, n) == {k \in 1..Len(ent) : ent[k].d = d /\ ent[k].n = n}
\* one element of a vector, at all points
Element(e, p) == IF p < 0 THEN [sh |-> e.sh, v |-> e.v]
                 ELSE IF Swept(e) THEN [sh |-> <<Head(e.sh)>>, v |-> [i \in 1..Head(e.sh) |-> e.v[(i-1)*Each(e) + p + 1]]]
                 ELSE [sh |-> <<>>, v |-> <<e.v[p + 1]>>]
\* the same solutions, put together as those of a sweep
StackEntry(es) == [es[1] EXCEPT !.sh = <<Len(es)>> \o @, !.v = FlattenSeq([i \in 1..Len(es) |-> es[i].v])]
Stack(sols) == [k \in 1..Len(sols[1]) |-> StackEntry([i \in 1..Len(sols) |-> sols[i][k]])]
=============================================================================
