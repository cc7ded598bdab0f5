----------------------------- MODULE NomialTrace -----------------------------
(* Validates recorded programs: each event builds an expression from earlier
   ones (registers); the recorded result must be the polynomial the
   specification computes from the registers, and no register may change.   *)
EXTENDS Constraint, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, regs, bad
vars == <<tid, l, regs, bad>>
T == Traces[tid]

Refused == [e \in {<<>>} |-> RZero]     \* no polynomial has this form
\* the constructor refuses non-positive coefficients unless signomials are enabled
Guard(p, sig) == IF AnyNonpos(p) /\ ~sig THEN Refused ELSE p

SubMap(s) == [i \in {s[j].i : j \in 1..Len(s)} |-> (CHOOSE x \in ToSet(s) : x.i = i).c]

RECURSIVE SumRegs(_, _), ProdRegs(_, _)
SumRegs(R, a) == IF Len(a) = 1 THEN R[a[1]] ELSE PAdd(R[a[1]], SumRegs(R, Tail(a)))
ProdRegs(R, a) == IF Len(a) = 1 THEN R[a[1]] ELSE PMul(R[a[1]], ProdRegs(R, Tail(a)))

(* value of an expression tree read from printed text *)
RECURSIVE EvalAst(_)
EvalAst(t) ==
    IF t.k = "num" THEN PConst(t.c)
    ELSE IF t.k = "var" THEN PVar(t.i)
    ELSE LET x == EvalAst(t.l) IN
      IF x = Refused THEN Refused
      ELSE IF t.k = "neg" THEN PNeg(x)
      ELSE IF t.k = "pow" THEN
         (IF t.c[2] = 1 /\ t.c[1] >= 0 THEN PPowNat(x, t.c[1])
          ELSE IF IsMono(x) /\ RHasPow(x[TheExp(x)], t.c[1], t.c[2]) THEN PPowMono(x, t.c[1], t.c[2]) ELSE Refused)
      ELSE LET y == EvalAst(t.r) IN
        IF y = Refused THEN Refused
        ELSE IF t.k = "add" THEN PAdd(x, y)
        ELSE IF t.k = "sub" THEN PSub(x, y)
        ELSE IF t.k = "mul" THEN PMul(x, y)
        ELSE IF IsMono(y) THEN PDiv(x, y) ELSE Refused

Result(e, R, sig) ==
    CASE e.op = "var" -> PVar(e.i)
      [] e.op = "num" -> PConst(e.c)
      [] e.op = "add" -> Guard(PAdd(R[e.a[1]], R[e.a[2]]), sig)
      [] e.op = "sum" -> Guard(SumRegs(R, e.a), sig)
      [] e.op = "sub" -> IF sig THEN PSub(R[e.a[1]], R[e.a[2]]) ELSE Refused
      [] e.op = "neg" -> IF sig THEN PNeg(R[e.a[1]]) ELSE Refused
      [] e.op = "mul" -> Guard(PMul(R[e.a[1]], R[e.a[2]]), sig)
      [] e.op = "prod" -> Guard(ProdRegs(R, e.a), sig)
      [] e.op = "div" -> IF IsMono(R[e.a[2]]) /\ (sig \/ ~AnyNonpos(R[e.a[2]])) THEN Guard(PDiv(R[e.a[1]], R[e.a[2]]), sig) ELSE Refused
      [] e.op = "pow" -> IF e.k = 1 /\ e.n >= 0 THEN Guard(PPowNat(R[e.a[1]], e.n), sig)
                         ELSE IF IsMono(R[e.a[1]]) /\ ~AnyNonpos(R[e.a[1]]) THEN PPowMono(R[e.a[1]], e.n, e.k) ELSE Refused
      [] e.op = "subst" -> Guard(PSubst(R[e.a[1]], SubMap(e.s)), sig \/ e.anysign)
      [] e.op = "diff" -> PDiff(R[e.a[1]], e.i)
      [] e.op = "copy" -> R[e.a[1]]

(* monomial approximation of R[a] about the point s: exponents and value are
   determined by tangency (exponents e.e in units of 1/(SC*e.den))           *)
TangentExp(p, s, i) == IF PEval(p, s)[1] = 0 THEN RZero
                       ELSE RDiv(RMul(s[i], PEval(PDiff(p, i), s)), PEval(p, s))
Approx(e, R) ==
    LET p == R[e.a[1]]  s == SubMap(e.s) IN
    IF ~(\A i \in PVars(p) : i \in DOMAIN s) THEN (IF IsMono(p) THEN "ok" ELSE "approximation about an incomplete point accepted")
    ELSE IF \E i \in 1..NV : e.x[i] # (IF i \in PVars(p) THEN TangentExp(p, s, i) ELSE RZero) THEN "approximation is not tangent"
    ELSE IF e.at # PEval(p, s) THEN "approximation differs at the point"
    ELSE IF IsMono(p) /\ ~e.same THEN "approximation of a monomial is not the monomial"
    \* elsewhere: probes are [s |-> point, lo |-> value of the approximation as a rational rounded down]
    ELSE IF \E k \in 1..Len(e.probe) : RLt(PEval(p, SubMap(e.probe[k].s)), e.probe[k].lo) /\ Class(p) # "Signomial"
         THEN "approximation exceeds the posynomial" ELSE "ok"

(* a constraint written between registers; e.at says where it was refused, e.ps
   holds the posynomials <= 1 it stands for once the values e.s are substituted *)
RefusedNames == {"TypeError", "InvalidPosynomial", "InvalidGPConstraint"}
NeverNames == {"PrimalInfeasible", "ValueError", "False"}
Near(L, R, s) == \* within the documented feasibility tolerance of an always-true constant
    GPable(L, R) /\ LET K == At(PSubst(PDiv(L, R), s), EZero) IN RLt(ROne, K) /\ RLt(K, <<501, 500>>)
Con(e, R, sig) ==
    LET a == R[e.a[1]]  b == R[e.a[2]]  s == SubMap(e.s)
        L == IF e.rel = ">=" THEN b ELSE a   G == IF e.rel = ">=" THEN a ELSE b
        f == IF e.rel = "=" THEN EqMono(L, G, s) ELSE Le(L, G, s, sig)
        nonpos == AnyNonpos(L) \/ AnyNonpos(G)
    IN IF Near(L, G, s) \/ (e.rel = "=" /\ Near(G, L, s)) THEN "ok"
       ELSE IF e.at # "ok" THEN
         (IF f.t = "refused" /\ e.x \in RefusedNames THEN "ok"
          ELSE IF f.t = "infeasible" /\ e.x \in NeverNames THEN "ok"
          ELSE IF f.t = "notgp" /\ e.at = "sub" /\ e.x = "InvalidGPConstraint" THEN "ok"
          ELSE IF nonpos /\ e.x \in RefusedNames THEN "ok"
          \* only values of zero (or less) could make it hold
          ELSE IF e.at = "make" /\ e.x \in NeverNames /\ (IF e.rel = "=" THEN EqMono(L, G, <<>>) ELSE Le(L, G, <<>>, sig)).t = "infeasible" THEN "ok"
          ELSE e.rel \o " (" \o f.t \o ") gave " \o e.x)
       ELSE IF \E i \in 1..Len(e.ps) : ~Canonical(e.ps[i]) THEN "constraint form is not canonical"
       ELSE LET ps == [i \in 1..Len(e.ps) |-> FromJ(e.ps[i])] IN
         CASE f.t = "drop" -> (IF Len(ps) = 0 THEN "ok" ELSE "an always-true inequality was kept")
           [] f.t = "infeasible" -> "an inequality that cannot hold was accepted"
           [] f.t = "notgp" -> "an inequality without a posynomial form got one"
           [] f.t = "refused" -> "an inequality with negative terms was accepted"
           [] f.t = "posy" -> (IF Len(ps) = 1 /\ ps[1] = f.p THEN "ok" ELSE "the constraint is not the inequality written")
           [] f.t = "eq" -> (IF Len(ps) = 2 /\ {ps[1], ps[2]} = {f.p, PInvMono(f.p)} THEN "ok" ELSE "the constraint is not the equality written")

Verdict(e, R, sig) ==
    IF Len(e.ch) > 0 THEN "an operand was changed by " \o e.op
    ELSE IF e.op = "eq" THEN
        (IF e.v # (R[e.a[1]] = R[e.a[2]]) THEN "== is wrong"
         ELSE IF e.v /\ ~e.h THEN "equal expressions have different hashes" ELSE "ok")
    ELSE IF e.op = "str" THEN (IF EvalAst(e.t) # R[e.a[1]] THEN "printed text denotes another expression" ELSE "ok")
    ELSE IF e.op = "badstr" THEN "printed text cannot be read: " \o e.txt
    ELSE IF e.op = "approx" THEN
        (IF e.out.t = "raise" THEN (IF \A i \in PVars(R[e.a[1]]) : i \in DOMAIN SubMap(e.s) THEN "approximation raised " \o e.out.x ELSE "ok")
         ELSE Approx(e, R))
    ELSE IF e.op = "con" THEN Con(e, R, sig)
    ELSE IF e.op = "chop" THEN
        (IF ~(\A i \in 1..Len(e.parts) : Canonical(e.parts[i]) /\ Len(e.parts[i]) = 1) THEN "chop gives non-monomials"
         ELSE IF FoldSet(LAMBDA i, acc : PAdd(acc, FromJ(e.parts[i])), PNil, 1..Len(e.parts)) # R[e.a[1]] THEN "chopped parts do not add up"
         ELSE "ok")
    ELSE LET r == Result(e, R, sig) IN
      IF e.out.t = "raise"
      THEN \* dividing by something negative may be refused
           (IF e.op = "div" /\ AnyNonpos(R[e.a[2]]) /\ e.out.x = "TypeError" THEN "ok" ELSE
            \* and so may any use of a non-positive expression where signomials are not enabled
            IF ~sig /\ e.out.x = "InvalidPosynomial" /\ \E i \in 1..Len(e.a) : AnyNonpos(R[e.a[i]]) THEN "ok" ELSE
            IF r = Refused \/ (r = PNil /\ ~sig) THEN (IF e.out.x \in {"TypeError", "InvalidPosynomial", "ValueError"} THEN "ok" ELSE e.op \o " raised " \o e.out.x)
            ELSE e.op \o " raised " \o e.out.x)
      ELSE IF e.out.t = "odd" THEN e.op \o " gives " \o e.out.x
      ELSE IF r = Refused THEN (IF FromJ(e.out.p) = PNil THEN "ok" ELSE e.op \o " was not refused")
      ELSE IF ~Canonical(e.out.p) THEN e.op \o " result is not canonical (zero or duplicate terms)"
      ELSE IF FromJ(e.out.p) # r THEN e.op \o " result is another polynomial"
      ELSE IF e.out.cls # "num" /\ e.op # "copy" /\ e.out.cls # Class(r) THEN e.op \o " result has class " \o e.out.cls
      ELSE "ok"

Init == tid \in 1..Len(Traces) /\ l = 1 /\ regs = <<>> /\ bad = ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               v == Verdict(e, regs, T.sig)
           IN /\ bad' = IF v = "ok" THEN "" ELSE v
              /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
              /\ regs' = IF v = "ok" /\ e.op \notin {"eq", "str", "badstr", "approx", "chop", "con"} /\ e.out.t = "poly"
                         THEN Append(regs, FromJ(e.out.p)) ELSE regs
              /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
