------------------------------ MODULE ExprTrace ------------------------------
(* Validates recorded programs over expressions with units, scalar or arrays:
   each event builds a value from earlier ones (registers); what the code
   shows (terms with coefficients in the units it shows, per element) must be
   what the specification computes, and no register may change.              *)
EXTENDS Units, Arrays, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, regs, bad
vars == <<tid, l, regs, bad>>
T == Traces[tid]
Tab == IF T.fam = "metric" THEN Metric ELSE Imperial

SetOf(s) == {s[j] : j \in 1..Len(s)}
\* the unit of variable i
VarU(i) == T.units[i]
SubMap(s) == [i \in {s[j].i : j \in 1..Len(s)} |->
                 LET x == CHOOSE y \in SetOf(s) : y.i = i IN RMul(x.c, RDiv(UScale(Tab, x.u), UScale(Tab, VarU(i))))]
SubBad(a, s) == \E j \in 1..Len(s) : s[j].i \in PVars(a.p) /\ Len(s[j].u) > 0 /\ UDim(Tab, s[j].u) # UDim(Tab, VarU(s[j].i))
BareSubs(s) == [j \in 1..Len(s) |-> IF Len(s[j].u) = 0 THEN [s[j] EXCEPT !.u = VarU(s[j].i)] ELSE s[j]]
QSubst(a, s) == IF SubBad(a, s) THEN DimErr ELSE Ok(PSubst(a.p, SubMap(BareSubs(s))), a.d)

\* an observed element [p: terms, u: units shown]
SeenQ(x) == Q(PScale(FromJ(x.p), UScale(Tab, x.u)), UDim(Tab, x.u))

Chain(F(_, _), s) == FoldLeft(LAMBDA acc, x : IF acc.t # "ok" THEN acc ELSE F(acc.v, x), Ok(s[1].p, s[1].d), Tail(s))
QSum(s, sig) == Chain(LAMBDA a, b : QAdd(a, b, sig), s)
QProd(s, sig) == Chain(LAMBDA a, b : QMul(a, b, sig), s)
QDot(ps, sig) == \* sum of products
    FoldLeft(LAMBDA acc, xy : IF acc.t # "ok" THEN acc ELSE
        LET m == QMul(xy[1], xy[2], sig) IN IF m.t # "ok" THEN m ELSE QAdd(acc.v, m.v, sig), Ok(PNil, Dimless), ps)

NoShape == [sh |-> <<-1>>, el |-> <<>>]
\* result: array of outcomes
Res(e, R) ==
    LET A == R[e.a[1]]  B == R[e.a[2]]  sig == T.sig IN
    CASE e.op = "var" -> MakeArr(e.sh, LAMBDA ix : LET i == e.i + Ravel(ix, e.sh) IN Ok(PScale(PVar(i), UScale(Tab, VarU(i))), UDim(Tab, VarU(i))))
      [] e.op = "num" -> [sh |-> e.sh, el |-> [k \in 1..Len(e.cs) |-> Ok(PConst(RMul(e.cs[k], UScale(Tab, e.u))), UDim(Tab, e.u))]]
      [] e.op = "arr" -> [sh |-> e.sh, el |-> [k \in 1..Len(e.a) |-> Ok(R[e.a[k]].el[1].p, R[e.a[k]].el[1].d)]]
      [] e.op \in {"add", "sub", "mul", "div"} ->
           IF ~CanBroadcast(A.sh, B.sh) THEN NoShape
           ELSE ZipArr(A, B, LAMBDA x, y : CASE e.op = "add" -> QAdd(x, y, sig) [] e.op = "sub" -> QSub(x, y, sig)
                                          [] e.op = "mul" -> QMul(x, y, sig) [] e.op = "div" -> QDiv(x, y, sig))
      [] e.op = "neg" -> Each(A, LAMBDA x : QNeg(x, sig))
      [] e.op = "pow" -> Each(A, LAMBDA x : QPow(x, e.n, e.k, sig))
      [] e.op = "powarr" -> IF ~CanBroadcast(A.sh, e.esh) THEN NoShape
           ELSE ZipArr(A, [sh |-> e.esh, el |-> e.ns], LAMBDA x, n : QPow(x, n, 1, sig))
      [] e.op = "to" -> Each(A, LAMBDA x : QTo(x, UDim(Tab, e.u)))
      [] e.op = "diff" -> Each(A, LAMBDA x : QDiff(x, e.i, UScale(Tab, VarU(e.i)), UDim(Tab, VarU(e.i)), sig))
      [] e.op = "subst" -> Each(A, LAMBDA x : QSubst(x, e.s))
      [] e.op = "sum" -> Scalar(QSum(A.el, sig))
      [] e.op = "prod" -> Scalar(QProd(A.el, sig))
      [] e.op = "sumax" -> OverAxis(A, e.ax, LAMBDA s : QSum(s, sig))
      [] e.op = "prodax" -> OverAxis(A, e.ax, LAMBDA s : QProd(s, sig))
      [] e.op = "outer" -> Outer(A, B, LAMBDA x, y : QMul(x, y, sig))
      [] e.op = "dot" -> IF A.sh # B.sh THEN NoShape ELSE Scalar(Dot1(A, B, LAMBDA s : QDot(s, sig)))
      [] e.op = "matdot" -> IF A.sh[2] # B.sh[1] THEN NoShape ELSE   \* matrix times vector
           MakeArr(<<A.sh[1]>>, LAMBDA ix : QDot([j \in 1..A.sh[2] |-> <<AtIx(A, <<ix[1], j - 1>>), B.el[j]>>], sig))
      [] e.op = "T" -> Each(Transpose(A), LAMBDA x : Ok(x.p, x.d))
      [] e.op = "flat" -> Each(Flatten(A), LAMBDA x : Ok(x.p, x.d))
      [] e.op = "index" -> IF ~IxOk(e.ix, A.sh) THEN NoShape ELSE Each(Index(A, e.ix), LAMBDA x : Ok(x.p, x.d))

DimNames == {"DimensionalityError"}
RefusedNames == {"TypeError", "InvalidPosynomial", "ValueError", "InvalidGPConstraint"}
ShapeNames == {"ValueError", "IndexError"}
Raises(r, x) == IF r = NoShape THEN x \in ShapeNames \cup DimNames \cup RefusedNames
                ELSE \E k \in 1..Len(r.el) : \/ r.el[k].t = "dim" /\ x \in DimNames
                                             \/ r.el[k].t = "refused" /\ x \in RefusedNames
AllOk(r) == r # NoShape /\ \A k \in 1..Len(r.el) : r.el[k].t = "ok"
Mixed(ds) == Cardinality(ds) > 1
HasZero(A) == \E k \in 1..Len(A.el) : A.el[k].p = PNil
AnyNeg(A) == \E k \in 1..Len(A.el) : AnyNonpos(A.el[k].p)

(* a comparison of two arrays: e.forms holds, per element, the posynomials <= 1 (or "drop") *)
Form(e, x, y) == LET L == IF e.rel = ">=" THEN y ELSE x  G == IF e.rel = ">=" THEN x ELSE y IN
    IF x.d # y.d THEN [t |-> IF e.rel # "=" /\ ~GPable(L.p, G.p) /\ ~T.sig THEN "dimref" ELSE "dim", p |-> PNil]
    ELSE IF e.rel = "=" THEN EqMono(L.p, G.p, <<>>) ELSE Le(L.p, G.p, <<>>, T.sig)
Cmp(e, R) ==
    LET A == R[e.a[1]]  B == R[e.a[2]]
        F == ZipArr(A, B, LAMBDA x, y : Form(e, x, y))
        someDim == \E k \in 1..Len(F.el) : F.el[k].t \in {"dim", "dimref"}
        some == {F.el[k].t : k \in 1..Len(F.el)}
    IN IF ~CanBroadcast(A.sh, B.sh) THEN (IF e.out.t = "raise" /\ e.out.x \in ShapeNames \cup DimNames \cup RefusedNames \cup {"PrimalInfeasible"} THEN "ok" ELSE e.rel \o " of other shapes was accepted")
       ELSE IF e.out.t = "raise" THEN
            (IF someDim /\ e.out.x \in DimNames THEN "ok"
             \* equalities that can never hold are False, or refused as constraints
             ELSE IF someDim /\ e.rel = "=" /\ e.out.x \in {"False", "ValueError"} THEN "ok"
             ELSE IF (AnyNeg(A) \/ AnyNeg(B)) /\ e.out.x \in RefusedNames THEN "ok"
             ELSE IF "dimref" \in some /\ e.out.x \in RefusedNames THEN "ok"
             ELSE IF "refused" \in some /\ e.out.x \in RefusedNames THEN "ok"
             ELSE IF "infeasible" \in some /\ e.out.x \in {"PrimalInfeasible", "False", "ValueError"} THEN "ok"
             ELSE IF "notgp" \in some /\ e.out.x = "InvalidGPConstraint" THEN "ok"
             ELSE e.rel \o " raised " \o e.out.x)
       ELSE IF someDim THEN e.rel \o " of incompatible units was accepted"
       ELSE IF "refused" \in some \/ "infeasible" \in some \/ "notgp" \in some THEN e.rel \o " was not refused"
       ELSE IF e.shape # F.sh THEN e.rel \o " gives constraints of another shape"
       ELSE IF Len(e.forms) # Len(F.el) THEN e.rel \o " gives another number of constraints"
       ELSE IF \E k \in 1..Len(F.el) : LET ps == [j \in 1..Len(e.forms[k]) |-> FromJ(e.forms[k][j])] IN
                 CASE F.el[k].t = "drop" -> Len(ps) # 0
                   [] F.el[k].t = "posy" -> ~(Len(ps) = 1 /\ ps[1] = F.el[k].p)
                   [] F.el[k].t = "eq" -> ~(Len(ps) = 2 /\ {ps[1], ps[2]} = {F.el[k].p, PInvMono(F.el[k].p)})
            THEN e.rel \o " gives another constraint"
       ELSE "ok"

\* a variable may be declared in, say, foot/inch; products of two such cancel, but not each alone
Odd(e, R) == (e.op = "diff" /\ UDim(Tab, VarU(e.i)) = Dimless) \/ \E i \in 1..Len(e.a) : \E k \in 1..Len(R[e.a[i]].el) : R[e.a[i]].el[k].w
Verdict(e, R) ==
    IF e.op = "fail" THEN e.msg
    ELSE IF Len(e.ch) > 0 THEN "an operand was changed by " \o e.op
    ELSE IF e.op = "cmp" THEN Cmp(e, R)
    ELSE LET r == Res(e, R)
             A0 == UNION {{R[e.a[i]].el[k].d : k \in 1..Len(R[e.a[i]].el)} : i \in 1..Len(e.a)} IN
      IF e.out.t = "raise"
      THEN (IF Raises(r, e.out.x) THEN "ok"
            ELSE IF e.op \in {"dot", "matdot"} /\ e.out.x = "SystemError" /\ (~AllOk(r) \/ \E i \in 1..Len(e.a) : HasZero(R[e.a[i]])) THEN "ok"   \* how numpy passes errors on
            \* what cancels on the way is a zero with units
            ELSE IF e.out.x \in DimNames \cup {"SystemError"} /\ e.op \in {"sum", "sumax", "dot", "matdot"} /\ Mixed(A0) THEN "ok"
            ELSE IF e.op = "sub" /\ ~T.sig /\ e.out.x \in DimNames THEN "ok"
            ELSE IF ~T.sig /\ e.out.x \in RefusedNames /\ \E i \in 1..Len(e.a) : AnyNeg(R[e.a[i]]) THEN "ok"
            \* a zero still has the units it was computed in
            ELSE IF e.out.x \in DimNames /\ \E i \in 1..Len(e.a) : HasZero(R[e.a[i]]) THEN "ok"
            ELSE e.op \o " raised " \o e.out.x)
      ELSE IF e.out.t = "odd" THEN e.op \o " gives " \o e.out.x
      ELSE IF r = NoShape THEN e.op \o " of other shapes was accepted"
      ELSE IF \E k \in 1..Len(r.el) : r.el[k].t = "dim" THEN e.op \o " of incompatible units was accepted"
      ELSE IF \E k \in 1..Len(r.el) : r.el[k].t = "refused" THEN "ok"
      ELSE IF e.out.v.sh # r.sh THEN e.op \o " has another shape"
      ELSE IF \E k \in 1..Len(r.el) : ~Canonical(e.out.v.el[k].p) THEN e.op \o " result is not canonical"
      ELSE IF \E k \in 1..Len(r.el) : LET o == SeenQ(e.out.v.el[k]) IN o.p # r.el[k].v.p THEN e.op \o " gives another value"
      ELSE IF \E k \in 1..Len(r.el) : LET o == SeenQ(e.out.v.el[k]) IN o.p # PNil /\ o.d # r.el[k].v.d THEN e.op \o " has other dimensions"
      ELSE IF e.op \in {"mul", "div", "pow", "powarr", "prod", "outer", "sub", "add", "sum", "diff", "dot", "matdot", "prodax", "sumax"} /\ \E k \in 1..Len(r.el) :
                 r.el[k].v.d = Dimless /\ ~Odd(e, R) /\ Len(e.out.v.el[k].u) > 0 THEN e.op \o " is dimensionless but carries a unit"
      ELSE "ok"

Add(e) == [sh |-> e.out.v.sh, el |-> [k \in 1..Len(e.out.v.el) |->
             LET q == SeenQ(e.out.v.el[k]) IN [p |-> q.p, d |-> q.d, w |-> q.d = Dimless /\ Len(e.out.v.el[k].u) > 0]]]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ regs = <<>> /\ bad = ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               v == Verdict(e, regs)
           IN /\ bad' = IF v = "ok" THEN "" ELSE v
              /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
              /\ regs' = IF v = "ok" /\ e.op \notin {"cmp", "fail"} /\ e.out.t = "val" THEN Append(regs, Add(e)) ELSE regs
              /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
