-------------------------------- MODULE Units --------------------------------
(* Expressions with units.  A dimensioned polynomial [p, d] is a polynomial p
   over the variables' magnitudes (each in its own unit) whose coefficients are
   in base units, and a dimension vector d: nothing of the units it was
   written in is left, so two ways of writing the same quantity are equal.   *)
EXTENDS Constraint

\* dimensions: length, mass, time, money; base units: inch or meter, kilogram, second, USD
DV(l, m, t, c) == <<<<l, 1>>, <<m, 1>>, <<t, 1>>, <<c, 1>>>>
Dimless == DV(0, 0, 0, 0)
U(n, d, v) == [s |-> <<n, d>>, d |-> v]
Common == [second |-> U(1, 1, DV(0,0,1,0)), minute |-> U(60, 1, DV(0,0,1,0)), hour |-> U(3600, 1, DV(0,0,1,0)),
           kilogram |-> U(1, 1, DV(0,1,0,0)), gram |-> U(1, 1000, DV(0,1,0,0)),
           USD |-> U(1, 1, DV(0,0,0,1)), kiloUSD |-> U(1000, 1, DV(0,0,0,1)), dimensionless |-> U(1, 1, DV(0,0,0,0)),
           percent |-> U(1, 100, DV(0,0,0,0))]
Imperial == [inch |-> U(1, 1, DV(1,0,0,0)), foot |-> U(12, 1, DV(1,0,0,0)), yard |-> U(36, 1, DV(1,0,0,0)),
             centimeter |-> U(50, 127, DV(1,0,0,0)), meter |-> U(5000, 127, DV(1,0,0,0))] @@ Common
Metric == [meter |-> U(1, 1, DV(1,0,0,0)), centimeter |-> U(1, 100, DV(1,0,0,0)), kilometer |-> U(1000, 1, DV(1,0,0,0)),
           millimeter |-> U(1, 1000, DV(1,0,0,0)), newton |-> U(1, 1, DV(1,1,-2,0)), joule |-> U(1, 1, DV(2,1,-2,0)),
           watt |-> U(1, 1, DV(2,1,-3,0)), kilonewton |-> U(1000, 1, DV(1,1,-2,0))] @@ Common

\* a unit expression: a sequence of [u |-> name, n |-> exponent's numerator, k |-> denominator]
UDim(tab, us) == FoldLeft(LAMBDA acc, u : [i \in 1..4 |-> RAdd(acc[i], RMul(<<u.n, u.k>>, tab[u.u].d[i]))], Dimless, us)
UScale(tab, us) == FoldLeft(LAMBDA acc, u : RMul(acc, RPow(tab[u.u].s, u.n, u.k)), ROne, us)

DAddV(a, b) == [i \in 1..4 |-> RAdd(a[i], b[i])]
DMulV(a, r) == [i \in 1..4 |-> RMul(a[i], r)]
\* an outcome: [t |-> "ok" | "dim" | "refused", v |-> dimensioned polynomial]
Q(p, d) == [p |-> p, d |-> d]
Ok(p, d) == [t |-> "ok", v |-> Q(p, d)]
DimErr == [t |-> "dim", v |-> Q(PNil, Dimless)]
Refusal == [t |-> "refused", v |-> Q(PNil, Dimless)]
DimZero(a) == a.p = PNil        \* zero has every dimension
Guarded(p, d, sig) == IF AnyNonpos(p) /\ ~sig THEN Refusal ELSE Ok(p, d)
QAdd(a, b, sig) == IF DimZero(a) THEN Guarded(b.p, b.d, sig) ELSE IF DimZero(b) THEN Guarded(a.p, a.d, sig)
                   ELSE IF a.d # b.d THEN DimErr ELSE Guarded(PAdd(a.p, b.p), a.d, sig)
QNeg(a, sig) == IF sig THEN Ok(PNeg(a.p), a.d) ELSE Refusal
QSub(a, b, sig) == IF ~sig THEN Refusal ELSE IF DimZero(a) THEN Ok(PNeg(b.p), b.d) ELSE IF DimZero(b) THEN Ok(a.p, a.d)
                   ELSE IF a.d # b.d THEN DimErr ELSE Ok(PSub(a.p, b.p), a.d)
QMul(a, b, sig) == Guarded(PMul(a.p, b.p), DAddV(a.d, b.d), sig)
QDiv(a, b, sig) == IF IsMono(b.p) /\ (sig \/ ~AnyNonpos(b.p)) THEN Guarded(PDiv(a.p, b.p), DAddV(a.d, DMulV(b.d, <<-1, 1>>)), sig) ELSE Refusal
QPow(a, n, k, sig) == IF k = 1 /\ n >= 0 THEN Guarded(PPowNat(a.p, n), DMulV(a.d, <<n, 1>>), sig)
                      ELSE IF IsMono(a.p) /\ ~AnyNonpos(a.p) THEN Ok(PPowMono(a.p, n, k), DMulV(a.d, <<n, k>>)) ELSE Refusal
\* conversion to other units keeps the quantity
QTo(a, d) == IF DimZero(a) \/ a.d = d THEN Ok(a.p, a.d) ELSE DimErr
QDiff(a, i, sc, d, sig) == Ok(PScale(PDiff(a.p, i), RInv(sc)), DAddV(a.d, DMulV(d, <<-1, 1>>)))
=============================================================================
