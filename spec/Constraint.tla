----------------------------- MODULE Constraint -----------------------------
(* What an (in)equality between expressions means, and the geometric-program
   form "posynomial <= 1" that has exactly the same solutions.              *)
EXTENDS Nomial

NoP == PNil
Drop == [t |-> "drop", p |-> NoP]              \* holds everywhere
Never == [t |-> "infeasible", p |-> NoP]       \* holds nowhere (variables are positive)
NotGP == [t |-> "notgp", p |-> NoP]            \* no geometric-program form
Lt1(p) == [t |-> "posy", p |-> p]
Refuse == [t |-> "refused", p |-> NoP]

Rest(q) == [e \in DOMAIN q \ {EZero} |-> q[e]]
\* q <= 1
LtOne(q) ==
    LET K == At(q, EZero)  rest == Rest(q) IN
    IF \E e \in DOMAIN rest : rest[e][1] < 0 THEN NotGP
    ELSE IF DOMAIN rest = {} THEN (IF RLe(K, ROne) THEN Drop ELSE Never)
    ELSE IF RLe(ROne, K) THEN Never
    ELSE Lt1(PScale(rest, RInv(RSub(ROne, K))))

Pos(p) == [e \in {x \in DOMAIN p : p[x][1] > 0} |-> p[e]]
Neg(p) == [e \in {x \in DOMAIN p : p[x][1] < 0} |-> RNeg(p[e])]
\* u <= 0 for a signomial u
LeZero(u) ==
    LET py == Pos(u)  ny == Neg(u) IN
    IF DOMAIN py = {} THEN Drop
    ELSE IF DOMAIN ny = {} THEN Never
    ELSE IF ~IsMono(ny) THEN NotGP
    ELSE LtOne(PDiv(py, ny))

\* a term of q divides by a constant that is zero: it is beyond any bound
Infinite(q, s) == \E e \in DOMAIN q : \E i \in DOMAIN s : s[i][1] = 0 /\ e[i] < 0
GPable(L, R) == IsMono(R) /\ ~AnyNonpos(L) /\ ~AnyNonpos(R)
\* L <= R, with the values s substituted
Le(L, R, s, sig) ==
    IF GPable(L, R) THEN (IF Infinite(PDiv(L, R), s) THEN Never ELSE LtOne(PSubst(PDiv(L, R), s)))
    ELSE IF ~sig THEN Refuse
    ELSE LeZero(PSubst(PSub(L, R), s))
\* L = R for two monomials
EqMono(L, R, s) == IF \E i \in DOMAIN s : s[i][1] = 0 /\ TheExp(PDiv(L, R))[i] # 0 THEN Never ELSE
    LET q == PSubst(PDiv(L, R), s) IN
    IF Rest(q) = PNil THEN (IF q = PConst(ROne) THEN Drop ELSE Never) ELSE [t |-> "eq", p |-> q]

(* the meaning itself, on points: used to check the forms above (ConstraintLaws) *)
HoldsLe(L, R, x) == RLe(PEval(L, x), PEval(R, x))
FormHolds(f, x) == CASE f.t = "drop" -> TRUE [] f.t = "infeasible" -> FALSE
                     [] f.t = "posy" -> RLe(PEval(f.p, x), ROne)
                     [] f.t = "eq" -> PEval(f.p, x) = ROne
=============================================================================
