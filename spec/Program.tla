------------------------------- MODULE Program -------------------------------
(* A model (cost, constraints, substitutions) and what solving it means: the
   numeric geometric program handed to the solver, and the sensitivities that
   belong to the solver's dual variables.

   A constraint is [rel, l, r, sig] with l, r polynomials; the solver's answer
   assigns a dual value nu to every monomial of every posynomial.             *)
EXTENDS Constraint, TLC

Lower(c) == IF c.rel = ">=" THEN c.r ELSE c.l
Upper(c) == IF c.rel = ">=" THEN c.l ELSE c.r
FormOf(c, s) == IF c.rel = "=" THEN EqMono(c.l, c.r, s) ELSE Le(Lower(c), Upper(c), s, c.sig)
\* the posynomials <= 1 a constraint contributes
Posys(f) == CASE f.t = "posy" -> <<f.p>>
              [] f.t = "eq" -> <<f.p, PInvMono(f.p)>>
              [] OTHER -> <<>>
RECURSIVE OwnersF(_, _), PosysF(_, _)
OwnersF(fs, i) == IF i > Len(fs) THEN <<>> ELSE [j \in 1..Len(Posys(fs[i])) |-> i] \o OwnersF(fs, i + 1)
PosysF(fs, i) == IF i > Len(fs) THEN <<>> ELSE Posys(fs[i]) \o PosysF(fs, i + 1)
StatusF(c, ts) == IF c = PNil \/ AnyNonpos(c) THEN "badcost"
                  ELSE IF ts \cap {"notgp", "refused"} # {} THEN "notgp"
                  ELSE IF "infeasible" \in ts THEN "infeasible" ELSE "ok"
(* the program: status; posys (the first is the cost); own[k] the constraint the
   k+1st posynomial comes from; eq the posynomials that are halves of equalities,
   half those among them that come first                                        *)
Prog(M, s) ==
    LET fs == TLCEval([i \in 1..Len(M.cons) |-> FormOf(M.cons[i], s)])
        c == PSubst(M.cost, s)
        own == TLCEval(OwnersF(fs, 1))
        eq == {k \in 2..Len(own) + 1 : M.cons[own[k - 1]].rel = "="}
    IN TLCEval([status |-> StatusF(c, {fs[i].t : i \in 1..Len(fs)}), posys |-> <<c>> \o PosysF(fs, 1), own |-> own, eq |-> eq,
                half |-> {k \in eq : k = 2 \/ own[k - 1] # own[IF k > 2 THEN k - 2 ELSE 1]}])

(* ---- sensitivities.  nu: one function from exponents to dual values per posynomial ---- *)
RSumF(S, f(_)) == FoldSet(LAMBDA x, acc : RAdd(acc, f(x)), RZero, S)
\* weighted exponent of variable i in the terms of q that become target after substitution
Val(q, o, s) == RMul(q[o], CSub(o, s))
Into(q, s, t) == {o \in DOMAIN q : ESub(o, s) = t}
Total(q, s, t) == RSumF(Into(q, s, t), LAMBDA o : Val(q, o, s))
WExp(q, s, t, i) == RSumF(Into(q, s, t), LAMBDA o : RMul(Val(q, o, s), RNorm(o[i], SC)))
\* elasticity of the (merged) monomial t
Elas(q, s, t, i) == LET w == WExp(q, s, t, i) IN IF w[1] = 0 THEN RZero ELSE RDiv(w, Total(q, s, t))
NuSum(nu) == RSumF(DOMAIN nu, LAMBDA e : nu[e])

CostSens(M, s, nu, i) == RSumF(DOMAIN nu, LAMBDA t : IF nu[t][1] = 0 THEN RZero ELSE RMul(nu[t], Elas(M.cost, s, t, i)))
\* posynomial <= 1 from L <= R with R a monomial; constants were moved to the right
PosySens(c, s, nu, i) ==
    LET q == PDiv(Lower(c), Upper(c))  K == Total(q, s, EZero) IN
    RAdd(RSumF(DOMAIN nu, LAMBDA t : IF nu[t][1] = 0 THEN RZero ELSE RMul(nu[t], Elas(q, s, t, i))),
         LET w == WExp(q, s, EZero, i) IN
         IF w[1] = 0 \/ NuSum(nu)[1] = 0 THEN RZero ELSE RMul(NuSum(nu), RDiv(w, RSub(ROne, K))))
\* signomial u <= 0 with a single negative monomial n after substitution: (others/n) <= 1
SigSens(c, s, nu, i) ==
    LET u == PSub(Lower(c), Upper(c))
        n == CHOOSE t \in DOMAIN PSubst(u, s) : PSubst(u, s)[t][1] < 0
        full(t) == [j \in 1..NV |-> t[j] + n[j]]
    IN RSumF(DOMAIN nu, LAMBDA t : IF nu[t][1] = 0 THEN RZero
                                   ELSE RMul(nu[t], RSub(Elas(u, s, full(t), i), Elas(u, s, n, i))))
EqSens(c, s, la, i) == IF la[1] = 0 THEN RZero ELSE RMul(la, RNorm(TheExp(PDiv(c.l, c.r))[i], SC))

ConSens(M, s, k, nus, i) ==      \* constraint k, nus the dual values of its posynomials
    LET c == M.cons[k] IN
    IF Len(nus) = 0 THEN RZero
    ELSE IF c.rel = "=" THEN EqSens(c, s, RSub(NuSum(nus[1]), NuSum(nus[2])), i)
    ELSE IF GPable(Lower(c), Upper(c)) THEN PosySens(c, s, nus[1], i) ELSE SigSens(c, s, nus[1], i)
ConLambda(M, k, nus) == IF M.cons[k].rel = "=" THEN RAbs(RSub(NuSum(nus[1]), NuSum(nus[2]))) ELSE NuSum(nus[1])
\* dual values of the posynomials of each constraint
NuSeqs(M, P, nus) == TLCEval([k \in 1..Len(M.cons) |->
    LET z == SelectSeq([j \in 1..Len(P.own) |-> [o |-> P.own[j], n |-> nus[j + 1]]], LAMBDA r : r.o = k) IN [j \in 1..Len(z) |-> z[j].n]])
\* ns = NuSeqs(M, P, nus)
VarSens(M, s, nus, ns, i) == FoldSet(LAMBDA k, acc : RAdd(acc, ConSens(M, s, k, ns[k], i)), CostSens(M, s, nus[1], i), 1..Len(M.cons))
=============================================================================
