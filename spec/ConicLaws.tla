---------------------------- MODULE ConicLaws ----------------------------
(* The usual conic problem of a small program means that program; changing
   anything in it makes it meaningless or changes the meaning.             *)
EXTENDS Conic
CONSTANTS Coefs, Exps, MaxP
VARIABLES ps, change
Vecs == {[i \in 1..NV |-> IF i = 1 THEN a ELSE b] : a, b \in Exps}
Ts == {[e |-> e, c |-> <<c, 1>>] : e \in Vecs, c \in Coefs}
Polys == {<<s>> : s \in Ts} \cup {<<s, t>> : s, t \in {q \in Ts : q.c = <<1, 1>>}} 
Good(p) == Canonical(p)
Pool == {p \in Polys : Good(p)}
Init == ps \in {<<p>> : p \in Pool} /\ change = "none"
Grow == Len(ps) < MaxP /\ change = "none" /\ \E p \in Pool : ps' = Append(ps, p) /\ UNCHANGED change
Changes == {"lostrow", "bound", "otherz", "sign", "objective", "cone", "sum", "max"}
Spoil == change = "none" /\ change' \in Changes /\ UNCHANGED ps
Next == Grow \/ Spoil
E(t) == Encode(t, NV)
Poly(t, rs) == FromJ(Terms(t, rs, "c"))
Means(t, qs) == LET m == Meaning(t)
                    lse == SelectSeq([k \in 1..Len(qs) |-> k], LAMBDA k : ~Single1(qs, k))
                    lin == SelectSeq([k \in 1..Len(qs) |-> k], LAMBDA k : Single1(qs, k)) IN
    /\ m.ok = "ok" /\ Poly(t, m.cost) = FromJ(qs[1])
    /\ Len(m.lse) = Len(lse) - 1 /\ \A k \in 1..Len(m.lse) : Poly(t, m.lse[k]) = FromJ(qs[lse[k + 1]])
    /\ Len(m.lin) = Len(lin) /\ \A k \in 1..Len(m.lin) : Poly(t, <<m.lin[k]>>) = FromJ(qs[lin[k]])
Faithful == change = "none" => Means(E(ps), ps)
Changed(t) ==
    LET nt == Len(t.cones)  zs == NV + 3 * nt + 1 IN
    CASE change = "lostrow" -> [t EXCEPT !.rows = SubSeq(t.rows, 1, Len(t.rows) - 1)]
      [] change = "bound" -> [t EXCEPT !.bnd[t.n] = [k |-> IF t.n = zs THEN "up" ELSE "fr", v |-> 0]]
      [] change = "otherz" -> [t EXCEPT !.rows[1].x[NV + 2].j = IF t.n = zs THEN NV + 1 ELSE t.n]
      [] change = "sign" -> [t EXCEPT !.rows[nt].x[NV + 1].a = SC]
      [] change = "objective" -> [t EXCEPT !.obj = <<[j |-> IF t.n = zs THEN 1 ELSE t.n, a |-> SC]>>]
      [] change = "cone" -> [t EXCEPT !.cones[nt] = <<t.cones[nt][2], t.cones[nt][1], t.cones[nt][3]>>]
      [] change = "sum" -> [t EXCEPT !.rows[nt + 1].one = FALSE]
      [] change = "max" -> [t EXCEPT !.sense = "max"]
      [] OTHER -> t
Telling == change # "none" => ~Means(Changed(E(ps)), ps)
=============================================================================
