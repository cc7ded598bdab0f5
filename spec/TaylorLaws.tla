----------------------------- MODULE TaylorLaws -----------------------------
(* The series are those of functions with exp' = exp, tan' = 1 + tan^2 and
   sec' = sec tan; large natural numbers are added and multiplied as small
   ones are.                                                                 *)
EXTENDS Taylor
VARIABLE ab
Z(n) == Small(Zig[n + 1])
RECURSIVE Sum(_, _, _)
Sum(f(_), a, b) == IF a > b THEN 0 ELSE f(a) + Sum(f, a + 1, b)
Bin(n, k) == (Fact(n) \div Fact(k)) \div Fact(n - k)
Tan(n) == IF n % 2 = 1 THEN Z(n) ELSE 0
Sec(n) == IF n % 2 = 0 THEN Z(n) ELSE 0
ASSUME \A n \in 0..9 : Tan(n + 1) = (IF n = 0 THEN 1 ELSE 0) + Sum(LAMBDA k : Bin(n, k) * Tan(k) * Tan(n - k), 0, n)
ASSUME \A n \in 0..9 : Sec(n + 1) = Sum(LAMBDA k : Bin(n, k) * Sec(k) * Tan(n - k), 0, n)
ASSUME \A n \in 1..8 : Coef("exp", n) = RMul(Coef("exp", n - 0), ROne) /\ RMul(Coef("exp", n), RInt(n)) = (IF n = 1 THEN ROne ELSE Coef("exp", n - 1))
ASSUME Zig[25] = <<6905, 5708, 1635, 4534, 1551>> \* 15514534163557086905, as published
Some == {0, 1, 7, 9999, 10000, 10001, 99990000, 99999999, 123456789, 40000, 500005000}
Init == ab \in Some \X Some
Next == UNCHANGED ab
Adds == BAdd(Big(ab[1]), Big(ab[2])) = Big(ab[1] + ab[2])
Subs == ab[1] < ab[2] \/ BSub(Big(ab[1]), Big(ab[2])) = Big(ab[1] - ab[2])
Lts == BLt(Big(ab[1]), Big(ab[2])) <=> ab[1] < ab[2]
Times == \A n \in {0, 1, 3, 20, 99999} : (ab[1] > 2000 /\ n > 3) \/ BTimes(Big(ab[1]), n) = Big(ab[1] * n)
=============================================================================
