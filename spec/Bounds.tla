------------------------------- MODULE Bounds -------------------------------
(* Which sides of which variables a program limits.  A term of the cost or of an
   inequality limits the variables it grows with from above and those it falls
   with from below; an equality between monomials limits a side of a variable
   once all its other variables are limited on the sides that matter.          *)
EXTENDS Program

Up(i) == <<i, "upper">>
Low(i) == <<i, "lower">>
Sides(P) == {Up(i) : i \in UNION {PVars(P.posys[k]) : k \in 1..Len(P.posys)}} \cup {Low(i) : i \in UNION {PVars(P.posys[k]) : k \in 1..Len(P.posys)}}
Direct(P) == UNION {UNION {{Up(i) : i \in {j \in 1..NV : e[j] > 0}} \cup {Low(i) : i \in {j \in 1..NV : e[j] < 0}} : e \in DOMAIN P.posys[k]}
                    : k \in (1..Len(P.posys)) \ P.eq}
\* what the equality (monomial with exponents e) = 1 needs to limit side b of a variable
Needs(e, b) ==
    LET i == b[1]
        flip == (e[i] > 0) = (b[2] = "upper")       \* it must keep the rest from becoming small
    IN {IF (e[j] > 0) = flip THEN Low(j) ELSE Up(j) : j \in {j \in 1..NV : e[j] # 0 /\ j # i}}
Gains(P, B) == {b \in Sides(P) : \E k \in P.eq : LET e == TheExp(P.posys[k]) IN e[b[1]] # 0 /\ Needs(e, b) \subseteq B}
RECURSIVE Bounded(_, _)
Bounded(P, B) == LET C == B \cup Gains(P, B) IN IF C = B THEN B ELSE Bounded(P, C)
Open(P) == Sides(P) \ Bounded(P, Direct(P))
=============================================================================
