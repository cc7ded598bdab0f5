---------------------------- MODULE SankeyTrace ----------------------------
(* Validates recorded diagrams: every event makes a diagram, or clicks on a
   node (or link) of the last one, and says what is shown afterwards.       *)
EXTENDS Sankey, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, cur, bad         \* cur: the event that made the present diagram
vars == <<tid, l, cur, bad>>
T == Traces[tid]
E == T.ev[l]
D(e) == Diagram(T.tree, e.var, e.root, e.label, e.cost)
Colour(v) == IF RLt(Mag(v), Insensitive) THEN "grey" ELSE IF v[1][1] < 0 THEN "neg" ELSE "pos"
NodeAt(n, p) == FoldSeq(LAMBDA i, acc : acc.kids[i], n, p)
\* what is on the screen for the shown links L of the diagram n, seen from top
Rows(n, L, top) == LET P == TLCEval({x.path : x \in L}) IN
    [x \in L |-> LET up == Up(x.path)
                     par == NodeAt(n, up) IN
        [s |-> x.title, t |-> IF x.path = top THEN "⟶ " \o par.title ELSE par.title, v |-> x.v, col |-> Colour(x.v),
         tv |-> IF up \in P THEN <<par.v>> ELSE <<>>]]
Same(rows, L, seen) == /\ Cardinality(L) = Len(seen)
                       /\ \A k \in 1..Len(seen) : Cardinality({x \in L : rows[x] = seen[k]}) = Cardinality({j \in 1..Len(seen) : seen[j] = seen[k]})
Match(n, e, top, seen) == LET L == TLCEval(Shown(n, top, e.minsens, e.max, e.cons))
                              rows == TLCEval(Rows(n, L, top)) IN Same(rows, L, seen)
Verdict == IF E.msg # "" THEN E.msg
           ELSE IF E.op = "diagram" THEN LET n == TLCEval(D(E)) IN
               (IF Match(n, E, <<>>, E.shown) THEN "ok" ELSE "not the diagram of these sensitivities")
           ELSE LET n == TLCEval(D(cur))
                    tops == IF E.title = n.title THEN {<<>>} ELSE {}
                    more == {x.path : x \in {y \in Links(n, <<>>) : y.title = E.title}} IN
               (IF \E top \in tops \cup more : Match(n, cur, top, E.shown) THEN "ok" ELSE "not the diagram below the node clicked on")
Init == tid \in 1..Len(Traces) /\ l = 1 /\ cur = [op |-> ""] /\ bad = ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET v == TLCEval(Verdict) IN
             /\ bad' = (IF v = "ok" THEN "" ELSE v)
             /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
        /\ cur' = (IF E.op = "diagram" THEN E ELSE cur)
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
