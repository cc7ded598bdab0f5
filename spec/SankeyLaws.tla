---------------------------- MODULE SankeyLaws ----------------------------
(* Laws of diagrams of small models: what flows out of a node is what flows
   into it; nothing is lost on the way; less is shown, the fewer links are
   wanted, and never more than before.                                     *)
EXTENDS Sankey
VARIABLES t, at, d, sh    \* d: the diagrams without and with a variable; sh: what is shown of them, wanting few links or all
R(n) == <<n, 1>>
Lf(s) == [k |-> "leaf", title |-> "c", on |-> s # 2, s |-> IF s = 2 THEN RZero ELSE R(s), ss |-> <<[i |-> 1, c |-> R(s)]>>]
Leaves == {Lf(s) : s \in {-1, 0, 2}}
C0 == {<<>>, <<[title |-> "a", s |-> R(1), has |-> TRUE, vec |-> 0, vtitle |-> ""], [title |-> "b", s |-> R(2), has |-> TRUE, vec |-> 1, vtitle |-> "v"],
               [title |-> "b", s |-> R(-1), has |-> TRUE, vec |-> 1, vtitle |-> "v"]>>}
Wrap(S) == {[k |-> "list", kids |-> s] : s \in S} \cup {[k |-> "array", title |-> "a", kids |-> s] : s \in {q \in S : \A i \in 1..Len(q) : q[i].k = "leaf"}}
           \cup {[k |-> "dict", labels |-> [i \in 1..Len(s) |-> "l"], kids |-> s] : s \in S}
           \cup {[k |-> "model", title |-> "m", consts |-> c, kids |-> s, labels |-> IF b THEN [i \in 1..Len(s) |-> "l"] ELSE <<>>] : s \in S, c \in C0, b \in BOOLEAN}
L1 == {<<a>> : a \in Leaves} \cup {<<a, b>> : a, b \in Leaves}
T1 == Wrap(L1)
Diagrams(c) == <<Diagram(c, 0, "r", "l", <<>>), Diagram(c, 1, "r", "l", <<>>)>>
Wants == <<1, 3, 100>>
Views(ds) == [var \in {0, 1} |-> [cons \in BOOLEAN |-> [m \in 1..3 |-> Shown(ds[var + 1], <<>>, RZero, Wants[m], cons)]]]
Init == t \in T1 /\ at = 1 /\ d = TLCEval(Diagrams(t)) /\ sh = TLCEval(Views(d))
Next == at < 2 /\ at' = at + 1 /\ t' \in Wrap({<<t>>, <<t, Lf(2)>>, <<Lf(0), t>>}) /\ d' = TLCEval(Diagrams(t')) /\ sh' = TLCEval(Views(d'))
RECURSIVE Nodes(_)
Nodes(n) == {n} \cup UNION {Nodes(n.kids[i]) : i \in 1..Len(n.kids)}
RECURSIVE All(_), AllC(_, _)
All(c) == IF c.k = "leaf" THEN <<c>> ELSE Cat([i \in 1..Len(c.kids) |-> All(c.kids[i])])
\* constants are shown where a model is, but for labelled ones
AllC(c, lab) == IF c.k = "leaf" THEN <<>> ELSE (IF c.k = "model" /\ ~lab THEN c.consts ELSE <<>>)
                \o Cat([i \in 1..Len(c.kids) |-> AllC(c.kids[i], c.k = "dict" \/ (c.k = "model" /\ c.labels # <<>>))])
D(var) == d[var + 1]
RSum(s) == FoldSeq(LAMBDA x, acc : RAdd(acc, x), RZero, s)
Conserved == \A var \in {0, 1} : \A n \in Nodes(D(var)) : n.kids = <<>> \/ (n = D(1) /\ var = 1) \/ n.v = Sum(n.kids)
Whole == /\ D(0).v[1] = RNeg(RAdd(RSum([k \in 1..Len(All(t)) |-> RAbs(All(t)[k].s)]), RSum([k \in 1..Len(AllC(t, FALSE)) |-> RAbs(AllC(t, FALSE)[k].s)])))
         /\ D(1).kids[1].v[1] = RSum([k \in 1..Len(All(t)) |-> All(t)[k].ss[1].c])
Fewer == \A var \in {0, 1}, m \in {1, 2} : LET v == sh[var] IN
            /\ v[TRUE][m] \subseteq v[TRUE][3] /\ v[FALSE][m] \subseteq v[FALSE][3] /\ v[FALSE][3] \subseteq v[TRUE][3]
            /\ (Cardinality(v[TRUE][3]) <= Wants[m] => v[TRUE][m] = v[TRUE][3])
\* something at the first level stays, unless it is constraints
Kept == \A m \in {1, 2} : (\E x \in sh[0][TRUE][3] : Len(x.path) = 1 /\ x.tag = "") => sh[0][TRUE][m] # {}
=============================================================================
