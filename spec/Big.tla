-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size: sequences of limbs, base 10000, lowest first,
   without leading zeros; <<>> is zero.                                      *)
EXTENDS Integers, Sequences
B == 10000
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Big(n \div B)
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) == IF i > Longer(a, b) THEN Big(carry)
                           ELSE LET s == Limb(a, i) + Limb(b, i) + carry IN <<s % B>> \o AddFrom(a, b, i + 1, s \div B)
BAdd(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) == IF i > Len(a) THEN <<>>
                            ELSE LET s == a[i] - Limb(b, i) - borrow IN <<(s + B) % B>> \o SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BSub(a, b) == Trim(SubFrom(a, b, 1, 0))           \* for b no larger than a
RECURSIVE TimesFrom(_, _, _, _)
TimesFrom(a, n, i, carry) == IF i > Len(a) THEN Big(carry)
                             ELSE LET s == a[i] * n + carry IN <<s % B>> \o TimesFrom(a, n, i + 1, s \div B)
BTimes(a, n) == IF n = 0 THEN <<>> ELSE TimesFrom(a, n, 1, 0)      \* n below 100000
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF Limb(a, i) # Limb(b, i) THEN Limb(a, i) < Limb(b, i) ELSE LtFrom(a, b, i - 1)
BLt(a, b) == LtFrom(a, b, Longer(a, b))
BDiff(a, b) == IF BLt(a, b) THEN BSub(b, a) ELSE BSub(a, b)
=============================================================================
