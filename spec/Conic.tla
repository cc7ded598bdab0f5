------------------------------- MODULE Conic -------------------------------
(* What a problem given to a conic solver means.  The solver minimises a
   variable z0 subject to bounds, linear rows and exponential cones
   (p, o, l): p >= o*exp(l/o).  With o fixed at one, l = A.x + log c - z and
   the p of one z adding up to at most one, these are  sum c*exp(A.x) <= e^z:
   a posynomial at most one where z is at most zero, the cost where z is
   minimised.  Rows in the program's variables alone are monomials at most one.

   A problem: n variables; bnd[j] = [k |-> "fr" | "fx" | "up" | ..., v] ;
   cones, triples of variables; rows [k, one, c, x]: sum of x[.].a/SC times
   variable x[.].j is ("fx") or is at most ("up") h, with c = exp(-h) and
   one = (h = 1); the objective obj, like a row's x; col, which variables are
   the program's: [j, i], task variable j is variable i.                      *)
EXTENDS Nomial

Coef(x, j) == FoldSeq(LAMBDA t, acc : IF t.j = j THEN acc + t.a ELSE acc, 0, x)
VarsOf(x) == {x[k].j : k \in {q \in 1..Len(x) : x[q].a # 0}}
Real(t) == {t.col[k].j : k \in 1..Len(t.col)}
Term(t, r, f) == [e |-> [i \in 1..NV |-> LET S == {k \in 1..Len(t.col) : t.col[k].i = i} IN
                                          IF S = {} THEN 0 ELSE Coef(t.rows[r].x, t.col[CHOOSE k \in S : TRUE].j)],
                   c |-> t.rows[r][f]]
RowsWith(t, j) == {r \in 1..Len(t.rows) : j \in VarsOf(t.rows[r].x)}
Only(S) == CHOOSE x \in S : TRUE
InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* the meaning: ok; cost, lse, lin: the rows that are the terms of the cost, of each posynomial, and
   the rows that are monomials; z, the variable whose dual is the posynomial's                      *)
Meaning(t) ==
    LET cone == 1..Len(t.cones)
        P == {t.cones[q][1] : q \in cone}  O == {t.cones[q][2] : q \in cone}  L == {t.cones[q][3] : q \in cone}
        Z == 1..t.n \ (Real(t) \cup P \cup O \cup L)
        bd(j) == t.bnd[j].k
        \* what each cone's exponent is, and which sum it is part of
        def == TLCEval([q \in cone |-> RowsWith(t, t.cones[q][3])])
        sum == TLCEval([q \in cone |-> RowsWith(t, t.cones[q][1])])
        zs(q) == VarsOf(t.rows[Only(def[q])].x) \cap Z
        isdef(q) == /\ Cardinality(def[q]) = 1 /\ Cardinality(zs(q)) = 1
                    /\ LET w == t.rows[Only(def[q])] IN
                       w.k = "fx" /\ Coef(w.x, t.cones[q][3]) = -SC /\ Coef(w.x, Only(zs(q))) = -SC
                       /\ VarsOf(w.x) \subseteq Real(t) \cup {t.cones[q][3]} \cup Z
        issum(q) == /\ Cardinality(sum[q]) = 1
                    /\ LET w == t.rows[Only(sum[q])] IN w.k = "up" /\ w.one /\ VarsOf(w.x) \subseteq P /\ \A j \in VarsOf(w.x) : Coef(w.x, j) = SC
        shaped == /\ Cardinality(P \cup O \cup L) = 3 * Len(t.cones) /\ (P \cup O \cup L) \cap Real(t) = {}
                  /\ Cardinality(Real(t)) = Len(t.col)
                  /\ \A j \in Real(t) \cup P \cup L : bd(j) = "fr"
                  /\ \A j \in O : bd(j) = "fx" /\ t.bnd[j].v = 1 /\ RowsWith(t, j) = {}
                  /\ \A q \in cone : isdef(q) /\ issum(q)
        z == TLCEval([q \in cone |-> Only(zs(q))])
        together == \A q, r \in cone : (sum[q] = sum[r]) = (z[q] = z[r])
        used == UNION {def[q] \cup sum[q] : q \in cone}
        lin == (1..Len(t.rows)) \ used
        aims == VarsOf(t.obj)
        aim == Only(aims)
        minimised == Cardinality(aims) = 1 /\ Coef(t.obj, aim) = SC /\ bd(aim) = "fr" /\ t.sense = "min" /\ aim \in {z[q] : q \in cone}
        bounded == \A j \in Z \ {aim} : bd(j) = "up" /\ t.bnd[j].v = 0
        sums(j) == {Only(def[q]) : q \in {r \in cone : z[r] = j}}
        order == InOrder(Z \ {aim})
    IN TLCEval(
       IF ~shaped THEN [ok |-> "cones, bounds or rows of no meaning"]
       ELSE IF ~together THEN [ok |-> "a sum of other terms than its bound's"]
       ELSE IF Z # {z[q] : q \in cone} THEN [ok |-> "a variable of no meaning"]
       ELSE IF ~minimised THEN [ok |-> "something else is minimised"]
       ELSE IF ~bounded THEN [ok |-> "a posynomial that may be more than one"]
       ELSE IF \E r \in lin : t.rows[r].k # "up" \/ ~(VarsOf(t.rows[r].x) \subseteq Real(t)) THEN [ok |-> "a row of no meaning"]
       ELSE [ok |-> "ok", cost |-> InOrder(sums(aim)), lse |-> [k \in 1..Len(order) |-> InOrder(sums(order[k]))], lin |-> InOrder(lin), z |-> order])
\* the terms in those rows, as polynomials in JSON form; f: the field with the coefficients
Terms(t, rs, f) == [k \in 1..Len(rs) |-> Term(t, rs[k], f)]

(* the usual problem for a program: ps, polynomials (the first is the cost), each a sequence of terms *)
Single1(ps, k) == k > 1 /\ Len(ps[k]) = 1
RECURSIVE Flat_(_, _)
Flat_(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Flat_(s, k + 1)
Encode(ps, nx) ==
    LET all == [k \in 1..Len(ps) |-> k]
        lse == SelectSeq(all, LAMBDA k : ~Single1(ps, k))
        lin == SelectSeq(all, LAMBDA k : Single1(ps, k))
        ts == Flat_([k \in 1..Len(lse) |-> [q \in 1..Len(ps[lse[k]]) |-> [t |-> ps[lse[k]][q], g |-> k]]], 1)
        nt == Len(ts)
        zvar(g) == nx + 3 * nt + g
        xs(e) == [i \in 1..nx |-> [j |-> i, a |-> e[i]]]
    IN [n |-> nx + 3 * nt + Len(lse),
        bnd |-> [j \in 1..(nx + 3 * nt + Len(lse)) |->
                   IF j <= nx THEN [k |-> "fr", v |-> 0]
                   ELSE IF j <= nx + 3 * nt THEN (IF (j - nx) % 3 = 2 THEN [k |-> "fx", v |-> 1] ELSE [k |-> "fr", v |-> 0])
                   ELSE IF j = zvar(1) THEN [k |-> "fr", v |-> 0] ELSE [k |-> "up", v |-> 0]],
        cones |-> [q \in 1..nt |-> <<nx + 3 * q - 2, nx + 3 * q - 1, nx + 3 * q>>],
        rows |-> [q \in 1..nt |-> [k |-> "fx", one |-> FALSE, c |-> ts[q].t.c,
                                   x |-> xs(ts[q].t.e) \o <<[j |-> nx + 3 * q, a |-> -SC], [j |-> zvar(ts[q].g), a |-> -SC]>>]]
                 \o [g \in 1..Len(lse) |-> [k |-> "up", one |-> TRUE, c |-> ROne,
                                   x |-> LET qs == SelectSeq([q \in 1..nt |-> q], LAMBDA q : ts[q].g = g) IN [j \in 1..Len(qs) |-> [j |-> nx + 3 * qs[j] - 2, a |-> SC]]]]
                 \o [k \in 1..Len(lin) |-> [k |-> "up", one |-> FALSE, c |-> ps[lin[k]][1].c, x |-> xs(ps[lin[k]][1].e)]],
        obj |-> <<[j |-> zvar(1), a |-> SC]>>, sense |-> "min", col |-> [i \in 1..nx |-> [j |-> i, i |-> i]]]
=============================================================================
