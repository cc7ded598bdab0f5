----------------------------- MODULE NomialLaws -----------------------------
(* The specification's own algebra: the laws hold for all small polynomials.
   Variables range over pairs/triples of polynomials, so that TLC enumerates
   them as states and uses all cores.                                        *)
EXTENDS Nomial
CONSTANTS Coefs, Exps
VARIABLES p, q
Vecs == [1..NV -> Exps]
Polys == {[e \in E |-> c[e]] : E \in {S \in SUBSET Vecs : Cardinality(S) <= 2}, c \in [Vecs -> Coefs]}
RatCoefs == {<<1, 1>>, <<-1, 1>>, <<1, 2>>}
Init == p \in Polys /\ q = PNil
Next == q = PNil /\ q' \in Polys /\ UNCHANGED p
Pts == [1..NV -> {<<1, 1>>, <<2, 1>>, <<1, 2>>}]
Ring == /\ PAdd(p, q) = PAdd(q, p)
        /\ PMul(p, q) = PMul(q, p)
        /\ PSub(p, p) = PNil
        /\ PMul(p, PAdd(q, p)) = PAdd(PMul(p, q), PMul(p, p))
        /\ \A e \in DOMAIN PMul(p, q) : PMul(p, q)[e][1] # 0
EvalHom == \A s \in Pts : /\ PEval(PAdd(p, q), s) = RAdd(PEval(p, s), PEval(q, s))
                          /\ PEval(PMul(p, q), s) = RMul(PEval(p, s), PEval(q, s))
SubTwice == \A s \in Pts : PSubst(PSubst(p, [i \in {1} |-> s[i]]), s) = PSubst(p, s)
Leibniz == \A i \in 1..NV : PDiff(PMul(p, q), i) = PAdd(PMul(PDiff(p, i), q), PMul(p, PDiff(q, i)))
=============================================================================
