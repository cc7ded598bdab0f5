--------------------------------- MODULE Doc ---------------------------------
(* Documentation blocks of models: a machine that reads them line by line, and
   what the declared variables and bounding assumptions must then be.

   A line is a record with field op: "head" (what: variables, constants,
   vector (with length n), upper, lower), "rule" (the line under a heading),
   "decl" (name, val, vs, units, label; bad # "" if malformed), "names" (ents:
   [name, cond, neg]), "blank", "text",
   "skipver" (text that switches verification off).  Any line may mention (ment)
   unboundedness, which asks for verification.                               *)
EXTENDS Constraint, TLC

Start == [sec |-> "", n |-> 0, skip |-> FALSE, decl |-> <<>>, up |-> <<>>, low |-> <<>>, heads |-> <<>>,
          clerr |-> FALSE, mkerr |-> FALSE, vererr |-> FALSE, verify |-> FALSE, skipver |-> FALSE]
Declaring(s) == s \in {"variables", "constants", "vector"}
Step(S, e) ==
    LET Q == [S EXCEPT !.verify = @ \/ e.ment, !.skipver = @ \/ e.op = "skipver"] IN
    IF Q.skip THEN [Q EXCEPT !.skip = FALSE]
    ELSE IF Q.sec = "" THEN
        (IF e.op # "head" THEN Q
         ELSE [Q EXCEPT !.sec = e.what, !.n = e.n, !.skip = TRUE, !.heads = Append(@, e.what), !.vererr = @ \/ (~Declaring(e.what) /\ e.what \in ToSet(Q.heads))])
    ELSE IF e.op = "blank" THEN [Q EXCEPT !.sec = ""]
    ELSE IF Declaring(Q.sec) THEN
        (IF e.op # "decl" \/ e.bad # "" THEN [Q EXCEPT !.clerr = TRUE]
         ELSE [Q EXCEPT !.decl = Append(@, [name |-> e.name, val |-> e.val, units |-> e.units, label |-> e.label, const |-> Q.sec = "constants",
                                            sh |-> IF Q.sec = "vector" THEN <<Q.n>> ELSE <<>>]),
                        !.mkerr = @ \/ (Q.sec = "vector" /\ e.val # "" /\ e.vs # Q.n)])
    ELSE IF e.op # "names" THEN [Q EXCEPT !.vererr = TRUE]
    ELSE IF Q.sec = "upper" THEN [Q EXCEPT !.up = @ \o e.ents] ELSE [Q EXCEPT !.low = @ \o e.ents]
RECURSIVE Read(_, _)
Read(S, lines) == IF lines = <<>> THEN S ELSE Read(Step(S, Head(lines)), Tail(lines))

(* ---- which sides of which variables the constraints limit ---- *)
Side(i, up) == <<i, IF up THEN "upper" ELSE "lower">>
Opp(b) == Side(b[1], b[2] = "lower")
DLower(c) == IF c.rel = ">=" THEN c.r ELSE c.l
DUpper(c) == IF c.rel = ">=" THEN c.l ELSE c.r
SidesOf(x) == {Side(i, x[i] > 0) : i \in {j \in 1..NV : x[j] # 0}}        \* x: integer exponents
\* signs of the exponents of the monomial tangent to p (with coefficients as values at the point one), times a positive number
TangentAt1(p) == [i \in 1..NV |-> FoldSet(LAMBDA e, acc : RAdd(acc, RMul(p[e], RNorm(e[i], 1))), RZero, DOMAIN p)]
Mass(p) == FoldSet(LAMBDA e, acc : RAdd(acc, p[e]), RZero, DOMAIN p)
DirectOf(c) ==
    IF c.rel = "=" THEN {}
    ELSE IF GPable(DLower(c), DUpper(c)) THEN UNION {SidesOf(e) : e \in DOMAIN PDiv(DLower(c), DUpper(c))}
    ELSE LET u == PSub(DLower(c), DUpper(c))  py == Pos(u)  ny == Neg(u) IN
         IF py = PNil \/ ny = PNil THEN {}
         ELSE LET t == TangentAt1(ny)  m == Mass(ny) IN
              UNION {SidesOf([i \in 1..NV |-> RSub(RMul(m, RNorm(e[i], 1)), t[i])[1]]) : e \in DOMAIN py}
EqExps(cons) == {TheExp(PDiv(cons[k].l, cons[k].r)) : k \in {j \in 1..Len(cons) : cons[j].rel = "="}}
\* what the equality with exponents e needs to limit side b: every other variable limited where it counts
NeedsE(e, b) == {IF (e[j] > 0) = (e[b[1]] > 0) THEN Side(j, b[2] = "lower") ELSE Side(j, b[2] = "upper") : j \in {i \in 1..NV : e[i] # 0 /\ i # b[1]}}
GainsE(E, B) == UNION {{b \in (1..NV) \X {"upper", "lower"} : e[b[1]] # 0 /\ NeedsE(e, b) \subseteq B} : e \in E}
RECURSIVE Closure(_, _)
Closure(E, B) == LET C == TLCEval(B \cup GainsE(E, B)) IN IF C = B THEN B ELSE Closure(E, C)
Limited(cons, fixed) == Closure(EqExps(cons), UNION ({DirectOf(cons[k]) : k \in 1..Len(cons)} \cup {{Side(i, TRUE), Side(i, FALSE)} : i \in fixed}))

(* ---- the assumptions: entries [name, cond, neg]; Idx gives the variables of a name, {} if there is none ---- *)
Active(ents, flags) == {k \in 1..Len(ents) : ents[k].cond = "" \/ flags[ents[k].cond] # ents[k].neg}
Unknown(ents, flags, Idx(_)) == \E k \in Active(ents, flags) : Idx(ents[k].name) = {}
Assumed(ents, flags, Idx(_), up) == {Side(i, up) : i \in UNION {Idx(ents[k].name) : k \in Active(ents, flags)}}
VerifyErr(S, flags, Idx(_), cons, fixed, own) ==
    \/ S.vererr
    \/ Unknown(S.up, flags, Idx) \/ Unknown(S.low, flags, Idx)
    \/ LET A == Assumed(S.up, flags, Idx, TRUE) \cup Assumed(S.low, flags, Idx, FALSE)
           B == TLCEval(Limited(cons, fixed))
       IN \/ A \cap B # {}
          \/ ~((own \X {"upper", "lower"}) \subseteq Closure(EqExps(cons), A \cup B))
Outcome(S, flags, Idx(_), cons, fixed, own) ==
    IF S.clerr THEN "class"
    ELSE IF S.mkerr \/ (S.verify /\ ~S.skipver /\ VerifyErr(S, flags, Idx, cons, fixed, own)) THEN "make"
    ELSE "ok"
=============================================================================
