------------------------------ MODULE DocTrace ------------------------------
(* Validates recorded classes with documentation: every event is a line of the
   documentation, and "made" tells what defining and making the model did.   *)
EXTENDS Doc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, sub, bad     \* sub: the constraints, fixed and all variables of the sub-model made before
vars == <<tid, l, st, sub, bad>>
T == Traces[tid]
NoSub == [on |-> FALSE, cons |-> <<>>, fixed |-> <<>>, own |-> <<>>]
Con(c) == [rel |-> c.rel, l |-> FromJ(c.l), r |-> FromJ(c.r)]
\* numbers of the variables called so: scalars, elements of vectors, a sub-model's
Names == [a |-> 1, b |-> 2, c |-> 3, d |-> 4, e |-> 5, v |-> 6, w |-> 9, p |-> 11, q |-> 12]
Outside == 13
DeclIdx(d) == IF d.sh = <<>> THEN {Names[d.name]} ELSE Names[d.name]..(Names[d.name] + d.sh[1] - 1)
OwnIdx(S) == UNION {DeclIdx(S.decl[k]) : k \in 1..Len(S.decl)}
Idx(S, s, out, n) ==
    IF n = "o" THEN (IF out THEN {Outside} ELSE {})
    ELSE IF n \in {"sub.p", "sub.q"} THEN (IF s.on THEN {IF n = "sub.p" THEN 11 ELSE 12} \cap ToSet(s.own) ELSE {})
    ELSE UNION {DeclIdx(S.decl[k]) : k \in {j \in 1..Len(S.decl) : S.decl[j].name = n}}
FixedOf(S) == UNION {DeclIdx(S.decl[k]) : k \in {j \in 1..Len(S.decl) : S.decl[j].val # ""}}
Made(e) ==
    LET s == IF e.usesub THEN sub ELSE NoSub
        cons == [k \in 1..Len(e.cons) |-> Con(e.cons[k])] \o s.cons
        own == TLCEval(OwnIdx(st) \cup ToSet(s.own))
        fixed == TLCEval(FixedOf(st) \cup ToSet(s.fixed))
        want == TLCEval(Outcome(st, e.flags, LAMBDA n : Idx(st, s, e.outside, n), cons, fixed, own))
    IN [v |-> IF e.out # want THEN (IF want = "ok" THEN "well declared but raised (" \o e.out \o ") " \o e.x
                                    ELSE IF e.out = "ok" THEN (IF want = "class" THEN "malformed declarations were accepted" ELSE "wrong assumptions or values were accepted")
                                    ELSE "raised while " \o e.out \o " instead of " \o want)
              ELSE IF want # "ok" THEN "ok"
              ELSE IF [k \in 1..Len(e.vars) |-> e.vars[k].name] # [k \in 1..Len(st.decl) |-> st.decl[k].name] THEN "other variables than declared, or another order"
              ELSE IF \E k \in 1..Len(e.vars) : e.vars[k] # [st.decl[k] EXCEPT !.sh = @ \o e.vec] THEN "a variable is not as declared"
              ELSE IF ToSet(e.names) # {st.decl[k].name : k \in 1..Len(st.decl)} \cup (IF s.on THEN {"p", "q"} \cap ToSet(e.subnames) ELSE {}) THEN "the model has other variables"
              ELSE "ok",
        sub |-> IF want = "ok" /\ ~e.usesub THEN [on |-> TRUE, cons |-> cons, fixed |-> SetToSortSeq(fixed, <), own |-> SetToSortSeq(own, <)] ELSE sub]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Start /\ sub = NoSub /\ bad = ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] IN
           IF e.op = "made" THEN LET m == Made(e) IN
               /\ bad' = (IF m.v = "ok" THEN "" ELSE m.v)
               /\ IF m.v # "ok" THEN PrintT(<<"REJECT", tid, l, m.v>>) ELSE TRUE
               /\ st' = Start /\ sub' = TLCEval(m.sub)
           ELSE st' = TLCEval(Step(st, e)) /\ UNCHANGED <<sub, bad>>
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
