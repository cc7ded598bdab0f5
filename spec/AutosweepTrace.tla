--------------------------- MODULE AutosweepTrace ---------------------------
(* Validates automatic sweeps recorded from the real code.  An event:
   lines [a, g], lo, hi, tol; calls [t, s]: the points given to the solver and
   the slope it answered with; nodes [lo, hi, leaf, x, p, q]: all segments
   with their end solutions [v, y, s] (value of the swept variable, cost,
   sensitivity), x the split; sol [t, y]: the solution list; samples
   [t, lb, ub, mid, v]; sweep settings before and after.                     *)
EXTENDS Autosweep, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
T == Traces[tid]

EndOf(t, e) == [t |-> t, y |-> e.y, s |-> e.s]
LeafAt(e, t) == CHOOSE k \in 1..Len(e.nodes) : e.nodes[k].leaf /\ RLe(e.nodes[k].lo, t) /\ RLe(t, e.nodes[k].hi)
Leaves(e) == SelectSeq(e.nodes, LAMBDA n : n.leaf)
Auto(e) ==
    LET L == e.lines  lv == Leaves(e)  n == Len(lv)
        called == {e.calls[i].t : i \in 1..Len(e.calls)}
        slope(t) == {e.calls[i].s : i \in {j \in 1..Len(e.calls) : e.calls[j].t = t}}
        p(k) == EndOf(e.nodes[k].lo, e.nodes[k].p)
        q(k) == EndOf(e.nodes[k].hi, e.nodes[k].q)
    IN IF e.restored # "" THEN "after the sweep: " \o e.restored
       ELSE IF e.fail # "" THEN (IF e.out.t = "raise" /\ e.out.x = e.fail THEN "ok" ELSE "a failing solve: " \o e.out.t \o " " \o e.out.x)
       ELSE IF e.out.t = "raise" THEN "raised " \o e.out.x
       ELSE IF Len(e.calls) # e.nsols THEN "the number of solutions is not that of the solves"
       ELSE IF lv[1].lo # e.lo \/ lv[n].hi # e.hi THEN "the ends are not the requested bounds"
       ELSE IF \E k \in 1..n : ~RLt(lv[k].lo, lv[k].hi) THEN "an empty or reversed piece"
       ELSE IF \E k \in 1..(n-1) : lv[k].hi # lv[k+1].lo THEN "a gap between two pieces"
       ELSE IF \E k \in 1..Len(e.nodes) : LET m == e.nodes[k] IN m.p.v # m.lo \/ m.q.v # m.hi THEN "a solution belongs to another value"
       ELSE IF \E k \in 1..Len(e.nodes) : LET m == e.nodes[k] IN m.p.y # Cost(L, m.lo) \/ m.q.y # Cost(L, m.hi) THEN "a solution has another cost"
       ELSE IF \E k \in 1..Len(e.nodes) : LET m == e.nodes[k] IN m.p.s \notin slope(m.lo) \/ m.q.s \notin slope(m.hi) THEN "a solution has another sensitivity"
       ELSE IF \E k \in 1..Len(e.nodes) : e.nodes[k].leaf /\ ~CloseEnough(p(k), q(k), e.tol) THEN "a piece is not within tolerance"
       ELSE IF \E k \in 1..Len(e.nodes) : ~e.nodes[k].leaf /\ ~NeedsSplit(p(k), q(k), e.tol) THEN "a piece was refined needlessly"
       \* (on a straight piece no point is worse than another)
       ELSE IF \E k \in 1..Len(e.nodes) : e.nodes[k].x # Worst(p(k), q(k)) /\ ~(e.nodes[k].leaf /\ Straight(p(k), q(k))) THEN "the split is not at the worst point"
       ELSE IF called # {e.lo, e.hi} \cup {e.nodes[k].x : k \in {j \in 1..Len(e.nodes) : ~e.nodes[j].leaf}} THEN "other points were solved than the pieces' ends"
       ELSE IF Len(e.sol) # n + 1 THEN "the list of solutions is incomplete, or repeats some"
       ELSE IF \E k \in 1..(n+1) : e.sol[k].t # (IF k <= n THEN lv[k].lo ELSE e.hi) THEN "the list of solutions is out of order"
       ELSE IF \E k \in 1..(n+1) : e.sol[k].y # Cost(L, e.sol[k].t) THEN "the list of solutions has another cost"
       ELSE IF \E k \in 1..Len(e.samples) : LET a == e.samples[k]  m == LeafAt(e, a.t) IN
                a.lb # Lower(p(m), q(m), a.t) THEN "the lower bound is wrong"
       ELSE IF \E k \in 1..Len(e.samples) : LET a == e.samples[k]  m == LeafAt(e, a.t) IN
                a.ub # Upper(p(m), q(m), a.t) THEN "the upper bound is wrong"
       ELSE IF \E k \in 1..Len(e.samples) : LET a == e.samples[k] IN ~(RLe(a.lb, a.mid) /\ RLe(a.mid, a.ub)) THEN "a sampled cost is outside of its bounds"
       ELSE IF \E k \in 1..Len(e.samples) : e.samples[k].v # e.samples[k].t THEN "the swept variable has another value where sampled"
       ELSE IF e.grid # "" THEN e.grid
       ELSE "ok"
Verdict(e) == CASE e.op = "auto" -> Auto(e) [] e.op = "fail" -> e.msg
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET v == Verdict(T.ev[l])
           IN /\ bad' = IF v = "ok" THEN "" ELSE v
              /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
              /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
