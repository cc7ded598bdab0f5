------------------------------- MODULE Taylor -------------------------------
(* Taylor expansions of exp(p) - 1, sec(p) and tan(p) in polynomials p.  The
   derivatives at zero of sec + tan are the zigzag numbers, which Entringer's
   triangle makes by additions alone.                                        *)
EXTENDS Nomial, Big
\* row n of the triangle, from that before it
RECURSIVE Entringer(_, _)
Entringer(prev, row) == IF Len(row) = Len(prev) + 1 THEN row
                        ELSE Entringer(prev, Append(row, BAdd(row[Len(row)], prev[Len(prev) + 1 - Len(row)])))
RECURSIVE Zigzags(_, _)
Zigzags(zs, row) == IF Len(zs) = 42 THEN zs ELSE LET r == Entringer(row, <<(<<>>)>>) IN Zigzags(Append(zs, r[Len(r)]), r)
Zig == Zigzags(<<(<<1>>)>>, <<(<<1>>)>>)          \* Zig[n + 1], the n-th derivative of sec + tan at 0
\* the power of p in the i-th term that is not constant, and what it is divided by the factorial of
Power(fn, i) == IF fn = "exp" THEN i ELSE IF fn = "sec" THEN 2 * i ELSE 2 * i - 1
Deriv(fn, i) == IF fn = "exp" THEN <<1>> ELSE Zig[Power(fn, i) + 1]
Lead(fn) == IF fn = "sec" THEN PConst(ROne) ELSE PNil
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Small(b) == Limb(b, 1) + B * Limb(b, 2)
Coef(fn, i) == RNorm(Small(Deriv(fn, i)), Fact(Power(fn, i)))         \* of small powers
RECURSIVE Expand(_, _, _)
Expand(fn, p, n) == IF n = 0 THEN Lead(fn) ELSE PAdd(Expand(fn, p, n - 1), PScale(PPowNat(p, Power(fn, n)), Coef(fn, n)))
=============================================================================
