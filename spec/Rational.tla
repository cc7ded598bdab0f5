------------------------------ MODULE Rational ------------------------------
(* Exact rational arithmetic on pairs <<numerator, denominator>>, normalised:
   denominator > 0 and coprime to the numerator.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RNorm(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
               IN <<(s * n) \div g, (s * d) \div g>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RInt(n) == <<n, 1>>
RAdd(a, b) == IF a[2] = b[2] THEN RNorm(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2])
                   IN RNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
\* cross-cancel first: keeps intermediate results small
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN RZero
              ELSE LET g == Gcd(Abs(a[1]), b[2])  h == Gcd(Abs(b[1]), a[2])
                   IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == LET s == RSub(a, b) IN s[1] < 0
RLe(a, b) == LET s == RSub(a, b) IN s[1] <= 0
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RAbs(a) == <<Abs(a[1]), a[2]>>
RECURSIVE RPowNat(_, _)
RPowNat(a, n) == IF n = 0 THEN ROne ELSE RMul(a, RPowNat(a, n - 1))
RPowInt(a, n) == IF n >= 0 THEN RPowNat(a, n) ELSE RInv(RPowNat(a, -n))
\* exact k-th root of a natural number, if there is one below 65
IntRoots(n, k) == {r \in 0..64 : RPowNat(<<r, 1>>, k)[1] = n}
RHasRoot(a, k) == a[1] >= 0 /\ a[1] < 4200 /\ a[2] < 4200 /\ (\E r \in 0..64 : (r^k) = a[1]) /\ (\E r \in 1..64 : (r^k) = a[2])
RRoot(a, k) == <<CHOOSE r \in 0..64 : (r^k) = a[1], CHOOSE r \in 1..64 : (r^k) = a[2]>>
\* a to the power n/k
RPow(a, n, k) == IF n % k = 0 THEN RPowInt(a, n \div k)
                 ELSE LET g == Gcd(Abs(n), k) IN RPowInt(RRoot(a, k \div g), n \div g)
RHasPow(a, n, k) == n % k = 0 \/ RHasRoot(a, k \div Gcd(Abs(n), k))
RIsRat(x) == x \in Seq(Int) /\ Len(x) = 2
=============================================================================
