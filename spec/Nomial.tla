------------------------------- MODULE Nomial -------------------------------
(* Polynomials with rational coefficients and exponents ("signomials"), the
   meaning of every gpkit expression.

   A polynomial is a function from exponent vectors to non-zero rationals; an
   exponent vector is a tuple of integers, one per variable, in units of
   1/SC.  The zero polynomial is the empty function.                         *)
EXTENDS Rational, SequencesExt, FiniteSetsExt, Functions

CONSTANT SC, NV      \* exponent scale, number of variables

EZero == [i \in 1..NV |-> 0]
EUnit(i) == [EZero EXCEPT ![i] = SC]
EAdd(a, b) == [i \in 1..NV |-> a[i] + b[i]]
PZero == <<>>
Restrict0(f) == [e \in {x \in DOMAIN f : f[x][1] # 0} |-> f[e]]
PConst(c) == IF c[1] = 0 THEN [e \in {} |-> RZero] ELSE [e \in {EZero} |-> c]
PNil == [e \in {} |-> RZero]
PVar(i) == [e \in {EUnit(i)} |-> ROne]
At(p, e) == IF e \in DOMAIN p THEN p[e] ELSE RZero
PAdd(p, q) == Restrict0([e \in DOMAIN p \union DOMAIN q |-> RAdd(At(p, e), At(q, e))])
PNeg(p) == [e \in DOMAIN p |-> RNeg(p[e])]
PSub(p, q) == PAdd(p, PNeg(q))
PScale(p, c) == IF c[1] = 0 THEN PNil ELSE [e \in DOMAIN p |-> RMul(p[e], c)]
PShift(p, x, c) == LET old(e) == [i \in 1..NV |-> e[i] - x[i]] IN   \* times the monomial c*x
    [e \in {EAdd(o, x) : o \in DOMAIN p} |-> RMul(p[old(e)], c)]
PMul(p, q) == FoldSet(LAMBDA e, acc : PAdd(acc, PShift(p, e, q[e])), PNil, DOMAIN q)
IsMono(p) == Cardinality(DOMAIN p) = 1
TheExp(p) == CHOOSE e \in DOMAIN p : TRUE
PInvMono(p) == LET e == TheExp(p) IN [x \in {[i \in 1..NV |-> -e[i]]} |-> RInv(p[e])]
PDiv(p, q) == PMul(p, PInvMono(q))       \* q a monomial
RECURSIVE PPowNat(_, _)
PPowNat(p, n) == IF n = 0 THEN PConst(ROne) ELSE PMul(p, PPowNat(p, n - 1))
\* a monomial to the power n/k
PPowMono(p, n, k) == LET e == TheExp(p) IN [x \in {[i \in 1..NV |-> (e[i] * n) \div k]} |-> RPow(p[e], n, k)]

(* substitution: s is a partial function from variables to rationals *)
ESub(e, s) == [i \in 1..NV |-> IF i \in DOMAIN s THEN 0 ELSE e[i]]
CSub(e, s) == FoldSet(LAMBDA i, acc : IF e[i] = 0 THEN acc ELSE RMul(acc, RPow(s[i], e[i], SC)), ROne, DOMAIN s)
PTerm(e, c) == IF c[1] = 0 THEN PNil ELSE [x \in {e} |-> c]
PSubst(p, s) == FoldSet(LAMBDA e, acc : PAdd(acc, PTerm(ESub(e, s), RMul(p[e], CSub(e, s)))), PNil, DOMAIN p)
PVars(p) == {i \in 1..NV : \E e \in DOMAIN p : e[i] # 0}
PEval(p, s) == LET r == PSubst(p, s) IN At(r, EZero)

PDiff(p, i) == Restrict0(
    [e \in {[o EXCEPT ![i] = @ - SC] : o \in {x \in DOMAIN p : x[i] # 0}} |->
        LET o == [e EXCEPT ![i] = @ + SC] IN RMul(p[o], RNorm(o[i], SC))])

AnyNonpos(p) == p = PNil \/ \E e \in DOMAIN p : p[e][1] <= 0
Class(p) == IF AnyNonpos(p) THEN "Signomial" ELSE IF IsMono(p) THEN "Monomial" ELSE "Posynomial"

\* JSON form: a sequence of [e |-> exponents, c |-> <<n, d>>]
Canonical(s) == /\ \A i, j \in 1..Len(s) : s[i].e = s[j].e => i = j
                /\ \A i \in 1..Len(s) : s[i].c[1] # 0
FromJ(s) == [e \in {s[i].e : i \in 1..Len(s)} |-> (CHOOSE t \in ToSet(s) : t.e = e).c]
=============================================================================
