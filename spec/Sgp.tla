-------------------------------- MODULE Sgp --------------------------------
(* Sequential geometric programs.  A signomial constraint pos <= neg is
   replaced, about a point x, by pos/m <= slack with m the monomial tangent to
   neg at x (an equality: the ratio of both tangents, from both sides).

   Rows of a sub-problem are bags of terms [x, v]: rational exponents of the
   free variables and the slack, and the term's value at the point (with the
   slack at one), which stays rational.                                      *)
EXTENDS Bounds

XV == NV + 1       \* index of the slack variable
XZero == [i \in 1..XV |-> RZero]
ValAt(p, x, e) == RMul(p[e], FoldSet(LAMBDA i, acc : IF e[i] = 0 THEN acc ELSE RMul(acc, RPow(x[i], e[i], SC)), ROne, 1..NV))
Sum(p, x) == RSumF(DOMAIN p, LAMBDA e : ValAt(p, x, e))
\* exponents of the monomial tangent to p at x
Tangent(p, x) == LET t == Sum(p, x) IN
    [i \in 1..NV |-> RSumF({e \in DOMAIN p : e[i] # 0}, LAMBDA e : RMul(RNorm(e[i], SC), RDiv(ValAt(p, x, e), t)))]

SigU(c) == PSub(Lower(c), Upper(c))
IsSigEq(c) == c.rel = "=" /\ c.sig /\ ~(IsMono(c.l) /\ IsMono(c.r) /\ ~AnyNonpos(c.l) /\ ~AnyNonpos(c.r))
SFormOf(c, s) == IF IsSigEq(c) THEN NotGP ELSE FormOf(c, s)

\* original terms of an approximated constraint: full exponents o (of all variables) and value v at the point
RawRows(c, x) ==
    LET u == SigU(c)  py == Pos(u)  ny == Neg(u) IN
    IF IsSigEq(c) THEN
        LET a == Tangent(py, x)  b == Tangent(ny, x)  v == RDiv(Sum(py, x), Sum(ny, x))
        IN <<{[o |-> [i \in 1..NV |-> RSub(a[i], b[i])], v |-> v, k |-> EZero]},
             {[o |-> [i \in 1..NV |-> RSub(b[i], a[i])], v |-> RInv(v), k |-> EZero]}>>
    ELSE LET b == Tangent(ny, x)  t == Sum(ny, x) IN
         <<{[o |-> [i \in 1..NV |-> RSub(RNorm(e[i], SC), b[i])], v |-> RDiv(ValAt(py, x, e), t), k |-> e] : e \in {f \in DOMAIN py : ValAt(py, x, f)[1] # 0}}>>
FreeX(o, s, slack) == [i \in 1..XV |-> IF i = XV THEN <<slack, 1>> ELSE IF i \in DOMAIN s THEN RZero ELSE o[i]]
Merge(ts, key(_)) == LET xs == {key(t) : t \in ts} IN
    {[x |-> y, v |-> RSumF({t \in ts : key(t) = y}, LAMBDA t : t.v)] : y \in xs}
Row(ts, s, slack) == Merge(ts, LAMBDA t : FreeX(t.o, s, slack))
\* a row of the original program, as values at x
ExactRow(p, x, slack) == {[x |-> [i \in 1..XV |-> IF i = XV THEN <<slack, 1>> ELSE RNorm(e[i], SC)], v |-> ValAt(p, x, e)] : e \in DOMAIN p}

(* ---- the model's parts ---- *)
SigIdx(M, s) == SelectSeq([i \in 1..Len(M.cons) |-> i], LAMBDA i : SFormOf(M.cons[i], s).t = "notgp")
SStatus(M, s) ==
    LET ts == TLCEval({SFormOf(M.cons[i], s).t : i \in 1..Len(M.cons)})  c == PSubst(M.cost, s) IN
    IF AnyNonpos(M.cost) \/ c = PNil \/ AnyNonpos(c) THEN "badcost"
    ELSE IF "refused" \in ts THEN "notgp"
    ELSE IF "infeasible" \in ts THEN "infeasible"
    ELSE IF "notgp" \notin ts THEN "unnecessary" ELSE "ok"
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

(* the sub-problem about the point x: rows in any order but the cost first; own[k] = the
   constraint the k-th row belongs to (0 cost, -1 slack), raw[k] its original terms      *)
K0(r) == {t \in r : \A i \in 1..NV : t.x[i] = RZero}
SubProblem(M, s, x, pccp, penalty) ==
    LET sig == TLCEval(SigIdx(M, s))
        raw == TLCEval(Cat([j \in 1..Len(sig) |-> LET rr == RawRows(M.cons[sig[j]], x) IN [q \in 1..Len(rr) |-> [own |-> sig[j], raw |-> rr[q], posy |-> PNil]]]))
        gps == TLCEval(Cat([i \in 1..Len(M.cons) |-> LET f == SFormOf(M.cons[i], s)  ps == Posys(f) IN
                           [q \in 1..Len(ps) |-> [own |-> i, raw |-> {}, posy |-> ps[q]]]]))
        rows == raw \o (IF pccp THEN <<[own |-> -1, raw |-> {}, posy |-> PNil]>> ELSE <<>>) \o gps
        row(r) == IF r.own = -1 THEN {[x |-> [XZero EXCEPT ![XV] = <<-1, 1>>], v |-> ROne]}
                  ELSE IF r.posy = PNil THEN Row(r.raw, s, IF pccp THEN -1 ELSE 0)
                  ELSE ExactRow(r.posy, x, 0)
    IN TLCEval([rows |-> <<ExactRow(PSubst(M.cost, s), x, IF pccp THEN penalty ELSE 0)>> \o [k \in 1..Len(rows) |-> row(rows[k])],
                own |-> <<0>> \o [k \in 1..Len(rows) |-> rows[k].own],
                raw |-> <<{}>> \o [k \in 1..Len(rows) |-> rows[k].raw]])
\* without slack, constants move to the other side; with it this is allowed where it changes nothing at slack one
Canon(r) == LET z == K0(r)  k == RSumF(z, LAMBDA t : t.v)  rest == r \ z IN
    IF z = {} \/ RLe(ROne, k) \/ rest = {} THEN r ELSE {[t EXCEPT !.v = RDiv(t.v, RSub(ROne, k))] : t \in rest}
\* rows that say nothing, and rows that nothing satisfies
Void(r, pccp) == ~pccp /\ r = K0(r) /\ RLe(RSumF(r, LAMBDA t : t.v), ROne)
Hopeless(r, pccp) == ~pccp /\ K0(r) # {} /\ RLe(ROne, RSumF(K0(r), LAMBDA t : t.v)) /\ ~Void(r, pccp)

(* ---- sensitivities of an approximated row: nu is given by merged exponents ---- *)
RowSens(ts, s, slack, nu, i) ==
    LET r == Row(ts, s, slack)
        tot(y) == RSumF({t \in ts : FreeX(t.o, s, slack) = y}, LAMBDA t : t.v)
        w(y) == RSumF({t \in ts : FreeX(t.o, s, slack) = y}, LAMBDA t : RMul(t.v, t.o[i]))
        moved == {y \in {t.x : t \in r} : y \notin DOMAIN nu}       \* constants on the other side
        lam == RSumF(DOMAIN nu, LAMBDA y : nu[y])
    IN RAdd(RSumF({t.x : t \in r} \ moved, LAMBDA y : IF nu[y][1] = 0 \/ w(y)[1] = 0 THEN RZero ELSE RMul(nu[y], RDiv(w(y), tot(y)))),
            RSumF(moved, LAMBDA y : IF lam[1] = 0 \/ w(y)[1] = 0 THEN RZero ELSE RMul(lam, RDiv(w(y), RSub(ROne, tot(y))))))
=============================================================================
