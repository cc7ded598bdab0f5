------------------------------ MODULE SgpLaws ------------------------------
(* The tangent monomial of Sgp.tla touches its posynomial at the point, has
   its slopes there, and lies below it elsewhere (weighted AM-GM; compared in
   integer powers where these stay small).                                   *)
EXTENDS Sgp
CONSTANTS Coefs, Exps
VARIABLES p, x
SmallExps == {-1, 0, 1, 2}
TwoHalf == {<<1, 1>>, <<2, 1>>, <<1, 2>>}
Vecs == {[i \in 1..NV |-> IF i = 1 THEN a ELSE IF i = 2 THEN b ELSE 0] : a, b \in Exps}
Polys == UNION {[E -> Coefs] : E \in {{e, f} : e, f \in Vecs}}
Pts == {[i \in 1..NV |-> IF i = 1 THEN a ELSE IF i = 2 THEN b ELSE ROne] : a, b \in TwoHalf}
Init == p \in Polys /\ x = <<>>
Next == x = <<>> /\ x' \in Pts /\ UNCHANGED p
RECURSIVE Gcd_(_, _)
Gcd_(a, b) == IF b = 0 THEN a ELSE Gcd_(b, a % b)
Dens(a) == LET d1 == a[1][2]  d2 == a[2][2] IN (d1 * d2) \div Gcd_(d1, d2)
IPow(r, k) == RPow(r, k * SC, SC)
\* (m(y)/m(x))^q, with q making the exponents whole
Ratio(a, y, q) == RMul(IPow(RDiv(y[1], x[1]), (a[1][1] * q) \div a[1][2]), IPow(RDiv(y[2], x[2]), (a[2][1] * q) \div a[2][2]))
Below == x = <<>> \/ LET a == Tangent(p, x)  q == Dens(a) IN
    q > 4 \/ \A y \in Pts : RLe(Ratio(a, y, q), IPow(RDiv(Sum(p, y), Sum(p, x)), q))
\* x_i dp/dx_i / p at x
Slopes == x = <<>> \/ \A i \in 1..2 : Tangent(p, x)[i] = RDiv(RSumF({e \in DOMAIN p : e[i] # 0}, LAMBDA e : RMul(RNorm(e[i], SC), ValAt(p, x, e))), Sum(p, x))
\* the one of a monomial is the monomial
Mono == x = <<>> \/ Cardinality(DOMAIN p) # 1 \/ LET e == CHOOSE e \in DOMAIN p : TRUE IN \A i \in 1..NV : Tangent(p, x)[i] = RNorm(e[i], SC)
=============================================================================
