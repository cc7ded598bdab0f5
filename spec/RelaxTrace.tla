------------------------------ MODULE RelaxTrace ------------------------------
(* Sessions in which a model is relaxed.  A relaxation is a model of its own:
   its constraints, cost and constants follow from those of the model it was
   made of, and from then on both live separately.  mods[1] is the original. *)
EXTENDS SessionTrace
VARIABLE mods
rvars == <<tid, l, mods, bad>>

Unit(i, k) == LET e == [EZero EXCEPT ![i] = SC * k] IN e :> ROne
Times(p, i, k) == PMul(p, Unit(i, k))
Geq1(i) == [rel |-> ">=", l |-> Unit(i, 1), r |-> PConst(ROne), sig |-> FALSE]
\* the greater side gains the relaxation variable; an equality becomes two inequalities
Looser(c, i) == CASE c.rel = ">=" -> <<[c EXCEPT !.l = Times(c.l, i, 1), !.sig = TRUE]>>
                  [] c.rel = "<=" -> <<[c EXCEPT !.r = Times(c.r, i, 1), !.sig = TRUE]>>
                  [] OTHER -> <<[c EXCEPT !.rel = "<=", !.r = Times(c.r, i, 1), !.sig = TRUE],
                                [c EXCEPT !.rel = ">=", !.l = Times(c.l, i, 1), !.sig = TRUE]>>
RECURSIVE LooserAll(_, _, _)
LooserAll(cons, C(_), k) == IF k > Len(cons) THEN <<>> ELSE Looser(cons[k], C(k)) \o LooserAll(cons, C, k + 1)
\* constants to relax: all that are not zero, linked ones with their present values, as far as named
Named(e, i) == (e.inc = <<>> \/ T.names[i] \in ToSet(e.inc)) /\ T.names[i] \notin ToSet(e.exc)
ToRelax(S, e) == LET s == Consts(S, <<>>) IN {i \in DOMAIN s : s[i][1] # 0 /\ Named(e, i)}
RelaxVars(e) == {e.slots[j][2] : j \in 1..Len(e.slots)}
CostTimes(M, e) == FoldSet(LAMBDA r, p : Times(p, r, e.pow), M.cost, RelaxVars(e))
Group(t, k) == LET i == t[1] r == t[2] o == t[3] IN
    CASE k = 1 -> Geq1(r)
      [] k = 2 -> [rel |-> "<=", l |-> Times(Unit(o, 1), r, -1), r |-> Unit(i, 1), sig |-> FALSE]
      [] k = 3 -> [rel |-> "<=", l |-> Unit(i, 1), r |-> Times(Unit(o, 1), r, 1), sig |-> FALSE]
Relaxed(M, S, e) ==
    LET s == Consts(S, <<>>)
        cost == CostTimes(M, e)
        
        mk(cs, mv) == [cost |-> cost, cons |-> cs, marks |-> <<>>, move |-> mv, how |-> e.how, slots |-> e.slots, was |-> s]
        R == ToRelax(S, e)
        O(i) == (CHOOSE t \in ToSet(e.slots) : t[1] = i)[3]
        gone == [i \in {j \in DOMAIN S : j \notin R} |-> S[i]]
        new == [i \in {O(j) : j \in R} |-> [k |-> "c", c |-> s[CHOOSE j \in R : O(j) = i]]]
        live == DOMAIN Consts(gone, <<>>)
        keep(i) == IF i \in DOMAIN s /\ (s[i][1] = 0 \/ i \notin live) THEN [k |-> "c", c |-> s[i]] ELSE S[i]
        S2 == [i \in DOMAIN gone \cup DOMAIN new |-> IF i \in DOMAIN new THEN new[i] ELSE keep(i)]
    IN CASE e.how = "equal" -> [M |-> mk(<<Geq1(e.slots[1][2])>> \o LooserAll(M.cons, LAMBDA k : e.slots[1][2], 1), {}), S |-> S]
         [] e.how = "each" -> [M |-> mk([k \in 1..Len(M.cons) |-> Geq1(e.slots[k][2])] \o LooserAll(M.cons, LAMBDA k : e.slots[k][2], 1), {}), S |-> S]
         [] e.how = "constants" -> [M |-> mk(M.cons \o [j \in 1..Len(e.order) |-> Group(e.slots[e.order[j][1]], e.order[j][2])],
                                             {<<t[3], t[1]>> : t \in ToSet(e.slots)}), S |-> S2]
Relaxing(M, S, e) ==
    LET R == ToRelax(S, e)  n == Len(e.slots) IN
    IF e.x # "" THEN "relaxing raised " \o e.x
    ELSE IF e.left # "" THEN e.left
    ELSE IF e.how = "each" /\ n # Len(M.cons) THEN "not one relaxation variable per constraint"
    ELSE IF e.how # "constants" THEN "ok"
    ELSE IF {e.slots[j][1] : j \in 1..n} # R \/ n # Cardinality(R) THEN "other constants are relaxed than should be"
    ELSE IF Len(e.order) # 3 * n \/ ToSet(e.order) # {<<j, k>> : j \in 1..n, k \in 1..3} THEN "not every relaxed constant is held to its old value"
    ELSE "ok"

(* ---- what a solution has to say about relaxation ---- *)
One01 == <<101, 100>>
\* those above 1.01, or less but within a tenth of the most relaxed one's relaxation
Reported(xs) ==     \* xs: slot -> value
    LET most == CHOOSE v \in {xs[j] : j \in DOMAIN xs} \cup {One01} : \A j \in DOMAIN xs : RLe(xs[j], v) /\ RLe(One01, v)
        lim == RDiv(RSub(most, ROne), <<10, 1>>)
        due(j) == RLt(One01, xs[j]) \/ RLt(lim, RSub(xs[j], ROne))
        edge(j) == ~RLt(One01, xs[j]) /\ RSub(xs[j], ROne) = lim
    IN [must |-> {j \in DOMAIN xs : due(j) /\ ~edge(j)}, may |-> {j \in DOMAIN xs : due(j) \/ edge(j)}]
Near(a, b, d) == RLe(RAbs(RSub(a, b)), d)       \* a within d of b
About(a, b) == Near(a, b, RDiv(RAbs(b), <<500, 1>>))
RelaxWarnings(M, vals, r) ==
    LET n == Len(M.slots)
        xs == [j \in 1..n |-> vals[M.slots[j][2]]]
        rep == Reported(xs)
        j2(w) == IF M.how = "constants" THEN {j \in 1..n : M.slots[j][1] = w.a[1]} ELSE {w.a[1]}
        said == [q \in 1..Len(r.warn) |-> j2(r.warn[q])]
        pc(j) == RMul(RSub(xs[j], ROne), <<100, 1>>)
        true(q) == LET w == r.warn[q]  j == CHOOSE j \in said[q] : TRUE IN
                   IF w.cat # M.how THEN FALSE
                   ELSE IF M.how = "constants" THEN About(w.p, M.was[M.slots[j][1]]) /\ About(w.q, vals[M.slots[j][1]])
                   ELSE Near(w.p, pc(j), ROne)
    IN IF n = 0 THEN (IF r.warn = <<>> THEN "ok" ELSE "a relaxation is reported, but nothing is relaxed")
       ELSE IF \E q \in DOMAIN said : said[q] = {} THEN "a relaxation of something that is not relaxed is reported"
       ELSE IF ~\A j \in rep.must : \E q \in DOMAIN said : j \in said[q] THEN "a relaxation is not reported"
       ELSE IF ~\A q \in DOMAIN said : said[q] \subseteq rep.may THEN "a relaxation is reported, but there is none"
       ELSE IF \E q, p \in DOMAIN said : q # p /\ said[q] = said[p] THEN "a relaxation is reported twice"
       ELSE IF \E q \in DOMAIN said : ~true(q) THEN "a relaxation is reported with other values" ELSE "ok"
Judge(e) ==
    IF e.op = "fail" THEN e.msg
    ELSE IF e.op = "relax" THEN Relaxing(mods[1].M, mods[1].S, e)
    ELSE LET m == mods[e.m]  v == Verdict(e, m.M, m.S) IN
         IF v # "ok" \/ e.op # "solve" \/ e.m = 1 \/ e.gp THEN v
         ELSE IF e.out.t # "ok" THEN "ok" ELSE LET w(k) == RelaxWarnings(m.M, ValMap(e.out.res[k].vals), e.out.res[k]) IN
              IF \A k \in 1..Len(e.out.res) : w(k) = "ok" THEN "ok" ELSE w(CHOOSE k \in 1..Len(e.out.res) : w(k) # "ok")
RInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ subs = <<>> /\ spot = <<>>
         /\ mods = <<[M |-> Model(T), S |-> <<>>]>>
RNext == /\ bad = "" /\ l <= Len(T.ev)
         /\ LET e == T.ev[l]
                v == Judge(e)
            IN /\ bad' = IF v = "ok" THEN "" ELSE v
               /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
               /\ mods' = IF v # "ok" THEN mods
                          ELSE IF e.op = "relax" THEN Append(mods, Relaxed(mods[1].M, mods[1].S, e))
                          ELSE [mods EXCEPT ![e.m].S = NextSubs(e, @)]
               /\ l' = l + 1 /\ UNCHANGED <<tid, subs, spot>>
RSpec == RInit /\ [][RNext]_<<tid, l, mods, bad, subs, spot>>
=============================================================================
