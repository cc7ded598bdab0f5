--------------------------- MODULE ConstraintLaws ---------------------------
(* The geometric-program forms of Constraint.tla mean the inequality that was
   written, for all small left and right sides, substitutions and points.    *)
EXTENDS Constraint
CONSTANTS Coefs, Exps
VARIABLES p, q
Vecs == [1..NV -> Exps]
Polys == {[e \in E |-> c[e]] : E \in {S \in SUBSET Vecs : Cardinality(S) \in 1..2}, c \in [Vecs -> Coefs]}
RatCoefs == {<<1, 1>>, <<-1, 1>>, <<1, 2>>, <<2, 1>>}
Init == p \in Polys /\ q = PNil
Next == q = PNil /\ q' \in Polys /\ UNCHANGED p
Pts == [1..NV -> {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<5, 1>>, <<1, 5>>}]
None == [i \in {} |-> RZero]
Subs == {None} \cup {[i \in {1} |-> x] : x \in {<<1, 1>>, <<2, 1>>, <<1, 2>>}}
Agrees(f, s) == f.t \in {"notgp", "refused"} \/ \A x \in Pts : (\A i \in DOMAIN s : x[i] = s[i]) => (FormHolds(f, x) = HoldsLe(p, q, x))
\* an inequality called impossible has no solution at any sampled point; both directions are covered since p and q range over the same set
Meaning == q = PNil \/ \A s \in Subs : Agrees(Le(p, q, s, TRUE), s)
GPOnly == q = PNil \/ (GPable(p, q) => Le(p, q, None, FALSE) = Le(p, q, None, TRUE) /\ Le(p, q, None, FALSE).t # "notgp")
Equal == q = PNil \/ ~(IsMono(p) /\ IsMono(q) /\ ~AnyNonpos(p) /\ ~AnyNonpos(q)) \/
         \A s \in Subs : \A x \in Pts : (\A i \in DOMAIN s : x[i] = s[i]) => (FormHolds(EqMono(p, q, s), x) = (PEval(p, x) = PEval(q, x)))
=============================================================================
