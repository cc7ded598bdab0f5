---------------------------- MODULE TaylorTrace ----------------------------
(* Validates recorded expansions.  "poly": of a polynomial, few terms, exactly;
   "mono": of a monomial, any number of terms: each term's exponents are those
   of a power of it, and its coefficient (times the factorial and an integer
   power of ten, as a big number) is as near as floating point numbers are.   *)
EXTENDS Taylor, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
T == Traces[tid]
E == T.ev[l]
RECURSIVE Tens(_, _)
Tens(b, n) == IF n = 0 THEN b ELSE Tens(BTimes(b, 10), n - 1)
\* |got - want| 10^k <= want
Near(got, want, k) == ~BLt(want, Tens(BDiff(got, want), k))
\* the secant's coefficients are listed up to the twelfth, and estimated from then on
Digits(fn, i) == IF fn = "sec" /\ i > 12 THEN 2 ELSE 10
\* b, times the i-th term's sign and so on: r.e exponents, r.b the coefficient times power! times 10^12, over the argument's to the power
Term(e, i) == LET want == [k \in 1..NV |-> e.arg[k] * Power(e.fn, i)]
                  hits == {j \in 1..Len(e.terms) : e.terms[j].e = want} IN
    IF Cardinality(hits) # 1 THEN "a power is missing"
    ELSE LET b == e.terms[CHOOSE j \in hits : TRUE].b
             D == IF e.fn = "exp" THEN <<1>> ELSE Zig[Power(e.fn, i) + 1] IN
         IF Near(b, Tens(D, 12), Digits(e.fn, i)) THEN "ok" ELSE "a coefficient is wrong"
Verdict ==
    IF E.msg # "" THEN E.msg
    ELSE IF E.out # E.want THEN "raised " \o E.out \o " instead of " \o E.want
    ELSE IF E.out # "ok" THEN "ok"
    ELSE IF E.op = "poly" THEN (IF ~Canonical(E.res) \/ FromJ(E.res) # Expand(E.fn, FromJ(E.arg), E.n) THEN "not the expansion" ELSE "ok")
    ELSE LET vs == {Term(E, i) : i \in 1..E.n} IN
         IF Len(E.terms) # E.n THEN "other than the number of terms asked for"
         ELSE IF E.lead # (IF E.fn = "sec" THEN 1 ELSE 0) THEN "the constant term is wrong"
         ELSE IF vs \subseteq {"ok"} THEN "ok" ELSE CHOOSE v \in vs : v # "ok"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET v == TLCEval(Verdict) IN
             /\ bad' = (IF v = "ok" THEN "" ELSE v)
             /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
