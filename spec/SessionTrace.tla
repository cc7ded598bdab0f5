----------------------------- MODULE SessionTrace -----------------------------
(* Validates recorded sessions with one model: substitutions are written and
   deleted, the model is solved and swept, and every solver call and every
   result must be the one the specification derives from the model's state.

   Substitutions: variable -> [k |-> "c", c |-> rational]   a constant
                           -> [k |-> "link", p |-> terms]   a function of other constants
                           -> [k |-> "sweep", v |-> <<rationals>>]                       *)
EXTENDS Sgp, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, subs, bad, spot     \* spot: where the current sequential program is linearised
vars == <<tid, l, subs, bad, spot>>
T == Traces[tid]

Con(c) == [rel |-> c.rel, l |-> FromJ(c.l), r |-> FromJ(c.r), sig |-> c.sig]
Model(t) == [cost |-> FromJ(t.cost), cons |-> [i \in 1..Len(t.cons) |-> Con(t.cons[i])], marks |-> t.marks, move |-> {}]
ValMap(s) == [i \in {s[j].i : j \in 1..Len(s)} |-> (CHOOSE x \in ToSet(s) : x.i = i).c]

(* ---- the constants in force: links are evaluated until none is left ---- *)
Kind(S, k) == {i \in DOMAIN S : S[i].k = k}
Base(S, point) == [i \in Kind(S, "c") \cup DOMAIN point |-> IF i \in DOMAIN point THEN point[i] ELSE S[i].c]
Ready(S, done) == {i \in Kind(S, "link") \ DOMAIN done : PVars(FromJ(S[i].p)) \subseteq DOMAIN done}
RECURSIVE Linked(_, _)
Linked(S, done) == LET r == Ready(S, done) IN
    IF r = {} THEN done
    ELSE Linked(S, [i \in DOMAIN done \cup r |-> IF i \in DOMAIN done THEN done[i] ELSE PEval(FromJ(S[i].p), done)])
Consts(S, point) == Linked(S, Base(S, point))
\* derivative (as elasticity) of the linked constant v with respect to base constant i
RECURSIVE LinkElas(_, _, _, _)
LinkElas(S, s, v, i) ==
    IF v = i THEN ROne
    ELSE IF v \notin Kind(S, "link") THEN RZero
    ELSE LET p == FromJ(S[v].p) IN
         FoldSet(LAMBDA j, acc : LET d == PEval(PDiff(p, j), s) e == LinkElas(S, s, j, i) IN
                     IF d[1] = 0 \/ e[1] = 0 THEN acc ELSE RAdd(acc, RMul(RDiv(RMul(d, s[j]), s[v]), e)),
                 RZero, PVars(p))
(* ---- sweeps: the grid of all combinations, visited as nested loops ---- *)
Swept(S) == Kind(S, "sweep")
Orders(S) == {q \in [1..Cardinality(Swept(S)) -> Swept(S)] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
NVals(S, i) == Len(S[i].v)
RECURSIVE Size(_, _, _)
Size(S, q, k) == IF k > Len(q) THEN 1 ELSE NVals(S, q[k]) * Size(S, q, k + 1)
\* the n-th point (from 0) with q[1] the outermost loop
Point(S, q, n) == [i \in Swept(S) |-> LET k == CHOOSE k \in DOMAIN q : q[k] = i IN
                                      S[i].v[1 + ((n \div Size(S, q, k + 1)) % NVals(S, i))]]

(* ---- one solver call against the program ---- *)
\* the options a solver gets: this solve's, and gpkit's defaults for that solver
Names(o) == {"kktsolver=chol", "kktsolver=qr", "kktsolver=ldl2"} \cap o
Options(e) == LET o == ToSet(e.opts) IN
              IF e.solver = "conif" THEN o \cap {"verbose=False"} ELSE
              IF e.solver = "msk" THEN {} ELSE        \* (a command, which takes none)
              IF e.solver = "cvxopt" THEN (o \ {"use_leqs=False", "use_leqs=True"}) \cup (IF Names(o) = {} THEN {"kktsolver=ldl"} ELSE {}) ELSE o
Symbolic == {}      \* indices that stand for numbers, not variables
FreeVars(ps) == UNION {PVars(ps[k]) : k \in 1..Len(ps)} \ Symbolic
\* the two halves of an equality may come in either order
Swapped(c, want, k) == /\ k < Len(want) /\ k > 1 /\ k < Len(c.posys) /\ IsMono(want[k]) /\ want[k + 1] = PInvMono(want[k])
                       /\ FromJ(c.posys[k]) = want[k + 1] /\ FromJ(c.posys[k + 1]) = want[k]
Place(c, want, k) == IF Swapped(c, want, k) THEN k + 1 ELSE IF k > 1 /\ Swapped(c, want, k - 1) THEN k - 1 ELSE k
Got(c, want) == TLCEval([k \in 1..Len(c.posys) |-> FromJ(c.posys[Place(c, want, k)])])
Call(P, c) ==
    LET want == P.posys
        got == Got(c, want)
        eq == P.eq
        mono(k) == c.first[Place(c, want, k)]       \* index of the posynomial's first monomial
    IN IF Len(got) < Len(want) THEN "a constraint is missing from the program"
       ELSE IF Len(got) > Len(want) THEN "the program has a constraint too many"
       ELSE IF \E k \in 1..Len(got) : ~Canonical(c.posys[k]) THEN "a program posynomial has duplicate or zero terms"
       ELSE IF got[1] # want[1] THEN "the program's cost is not the model's"
       ELSE IF got # want THEN "the program's constraints are not the model's"
       ELSE IF c.consistent # "" THEN "the solver's arguments are inconsistent: " \o c.consistent
       ELSE IF c.kind = "fn" /\ ToSet(c.meq) # {mono(k) : k \in eq} THEN "wrong monomials are marked as equalities"
       ELSE IF c.kind = "fn" /\ ~(/\ ToSet(c.half) \subseteq ToSet(c.meq) /\ 2 * Cardinality(ToSet(c.half)) = Cardinality(ToSet(c.meq))
                 /\ \A k \in eq : mono(k) \in ToSet(c.half) =>
                      \E q \in eq : q # k /\ mono(q) \notin ToSet(c.half) /\ P.own[q - 1] = P.own[k - 1])
            THEN "equalities are not paired"
       ELSE IF c.ncol # Cardinality(FreeVars(want)) THEN "free variables and columns differ"
       ELSE "ok"

(* the same, as the arguments of cvxopt's gp function: sums, single monomials and equalities apart *)
CvxKind(P, e, k) == IF k \in P.eq /\ "use_leqs=False" \notin ToSet(e.opts) THEN "leq"
                    ELSE IF k > 1 /\ IsMono(P.posys[k]) THEN "lin" ELSE "lse"
\* which posynomials are given in each group, in order; of an equality only its first half
Groups(P, e) == LET kind == TLCEval([k \in 1..Len(P.posys) |-> CvxKind(P, e, k)])
                    all == [k \in 1..Len(P.posys) |-> k]
                    pick(g) == SelectSeq(all, LAMBDA k : kind[k] = g /\ (g = "leq" => k \in P.half))
                IN TLCEval([kind |-> kind, lse |-> pick("lse"), lin |-> pick("lin"), leq |-> pick("leq")])
\* where the j-th posynomial of the group was given: the halves of an equality may be swapped
Given(P, got, grp, j) == IF grp[j] \notin P.eq \/ FromJ(got[j]) = P.posys[grp[j]] THEN j ELSE IF grp[j] \in P.half THEN j + 1 ELSE j - 1
SameGroup(P, got, grp) == Len(got) = Len(grp) /\ \A j \in 1..Len(got) : Canonical(got[j]) /\ FromJ(got[Given(P, got, grp, j)]) = P.posys[grp[j]]
SameEqs(P, got, grp) == Len(got) = Len(grp) /\ \A j \in 1..Len(got) : Canonical(got[j]) /\ FromJ(got[j]) \in {P.posys[grp[j]], PInvMono(P.posys[grp[j]])}
CallCvx(P, e, c) ==
    LET G == Groups(P, e) IN
    IF c.consistent # "" THEN "the solver's arguments are inconsistent: " \o c.consistent
    ELSE IF ~SameGroup(P, c.lse, G.lse) THEN "posynomials given to cvxopt are not the model's"
    ELSE IF ~SameGroup(P, c.lin, G.lin) THEN "monomials given to cvxopt are not the model's"
    ELSE IF ~SameEqs(P, c.leq, G.leq) THEN "equalities given to cvxopt are not the model's"
    ELSE IF c.ncol # Cardinality(FreeVars(P.posys)) THEN "free variables and columns differ"
    ELSE "ok"
\* dual values of the posynomials, from what cvxopt answered for each group
CvxNus(P, e, c) ==
    LET G == Groups(P, e)
        want == P.posys
        pos(grp, k) == CHOOSE j \in 1..Len(grp) : grp[j] = k
        const(p, x) == [q \in DOMAIN p |-> x]
        own(k) == IF k \in P.half THEN k ELSE k - 1
        y(k) == LET j == pos(G.leq, own(k)) IN      \* for the half as given
                LET v == c.y[j] IN IF FromJ(c.leq[j]) = want[own(k)] THEN v ELSE RNeg(v)
    IN TLCEval([k \in 1..Len(want) |->
         CASE G.kind[k] = "lse" -> LET j == pos(G.lse, k) IN
                [q \in DOMAIN want[k] |-> c.nulse[j][CHOOSE i \in 1..Len(c.lse[j]) : c.lse[j][i].e = q]]
           [] G.kind[k] = "lin" -> const(want[k], c.zl[Given(P, c.lin, G.lin, pos(G.lin, k))])
           [] OTHER -> const(want[k], IF k \in P.half THEN RMax(y(k), RZero) ELSE RMax(RNeg(y(k)), RZero))])

NuFun(ts, ns) == [e \in {ts[j].e : j \in 1..Len(ts)} |-> ns[CHOOSE j \in 1..Len(ts) : ts[j].e = e]]
Nus(P, c) == TLCEval([k \in 1..Len(c.posys) |-> LET p == Place(c, P.posys, k) IN NuFun(c.posys[p], c.nu[p])])

(* the same, as a conic problem (Conic.tla) *)
CO == INSTANCE Conic WITH NV <- NV, SC <- SC
Task(c) == [n |-> c.n, bnd |-> c.bnd, cones |-> c.cones, rows |-> c.rows, obj |-> c.aim, sense |-> c.sense, col |-> c.col]
ConicGroups(P, e) == Groups(P, [opts |-> <<"use_leqs=False">>])
Sums(c, m) == [k \in 1..Len(m.lse) + 1 |-> IF k = 1 THEN CO!Terms(Task(c), m.cost, "cc") ELSE CO!Terms(Task(c), m.lse[k - 1], "c")]
Monos(c, m) == [k \in 1..Len(m.lin) |-> CO!Terms(Task(c), <<m.lin[k]>>, "c")]
CallConic(P, e, c) ==
    LET m == CO!Meaning(Task(c))  G == ConicGroups(P, e) IN
    IF m.ok # "ok" THEN "the conic problem: " \o m.ok
    ELSE IF ~SameGroup(P, Sums(c, m), G.lse) THEN "posynomials given to the conic solver are not the model's"
    ELSE IF ~SameGroup(P, Monos(c, m), G.lin) THEN "monomials given to the conic solver are not the model's"
    ELSE IF c.ncol # Cardinality(FreeVars(P.posys)) THEN "free variables and columns differ"
    ELSE "ok"
ConicNus(P, e, c) ==
    LET m == CO!Meaning(Task(c))  G == ConicGroups(P, e)
        sums == TLCEval(Sums(c, m))  monos == TLCEval(Monos(c, m))
        want == P.posys
        pos(grp, k) == CHOOSE j \in 1..Len(grp) : grp[j] = k
        dual(v) == RMax(v, RZero)
    IN TLCEval([k \in 1..Len(want) |->
         IF G.kind[k] = "lse" THEN
             LET j == pos(G.lse, k)
                 rs == IF j = 1 THEN m.cost ELSE m.lse[j - 1]
                 la == IF j = 1 THEN ROne ELSE dual(c.sux[m.z[j - 1]])
             IN [q \in DOMAIN want[k] |-> RMul(la, c.rows[rs[CHOOSE i \in 1..Len(sums[j]) : sums[j][i].e = q]].sh)]
         ELSE [q \in DOMAIN want[k] |-> dual(c.suc[m.lin[Given(P, monos, G.lin, pos(G.lin, k))]])]])

AnyCall(P, e, c) == IF ToSet(c.kw) # Options(e) THEN "the solver got other options than this solve's"
                    ELSE IF c.kind = "cvx" THEN CallCvx(P, e, c) ELSE IF c.kind = "conic" THEN CallConic(P, e, c) ELSE Call(P, c)
AnyNus(P, e, c) == IF c.kind = "cvx" THEN CvxNus(P, e, c) ELSE IF c.kind = "conic" THEN ConicNus(P, e, c) ELSE Nus(P, c)

(* ---- warnings that are due: constraints marked as tight, loose or bounded ---- *)
\* "yes", "no", or "either" on the edge or where the numbers are too large for TLC's integers
Due(b, edge) == IF edge THEN "either" ELSE IF b THEN "yes" ELSE "no"
TightDue(m, c, vals, skip) ==
    IF skip THEN "either" ELSE
    LET d == RAbs(RSub(ROne, RDiv(PEval(c.l, vals), PEval(c.r, vals)))) IN
    IF d[1] \div d[2] > 1000 THEN "yes"
    ELSE LET q == RDiv(d, m.tol) IN Due(q[1] > q[2], q = ROne)
LooseDue(m, x) == LET q == RDiv(x, m.tol) IN Due(q[1] > q[2], q = ROne)
\* close to a bound: within a factor of e^3
Close(q) == Due(q[1] < 20 * q[2], q[1] >= 20 * q[2] /\ q[1] <= 21 * q[2])
BoundDue(m, side, what, vals, xs) ==        \* the variables a bounded set has to report
    LET ps == {m.pairs[j] : j \in 1..Len(m.pairs)}
        k(p) == IF side = "lower" THEN p[2] ELSE p[3]
        due(p) == IF what = "sensitive" THEN Due(xs[k(p)][1] > 0, FALSE)
                  ELSE IF vals[p[1]][1] = 0 THEN (IF side = "lower" THEN "yes" ELSE "no")
                  ELSE Close(IF side = "lower" THEN RDiv(vals[p[1]], m.lo) ELSE RDiv(m.up, vals[p[1]]))
    IN [must |-> {p[1] : p \in {q \in ps : due(q) = "yes"}}, may |-> {p[1] : p \in {q \in ps : due(q) # "no"}}]
BoundCats == {<<"sensitive", "lower", "sensitive to lower">>, <<"sensitive", "upper", "sensitive to upper">>,
              <<"value", "lower", "value near lower">>, <<"value", "upper", "value near upper">>}
Marked(M, t) == {j \in 1..Len(M.marks) : M.marks[j].t = t}
Has(m, k) == \E j \in 1..Len(m.ks) : m.ks[j] = k
Said(r, cat, a) == Cardinality({j \in 1..Len(r.warn) : r.warn[j].cat = cat /\ r.warn[j].a = a})
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* xs: the constraints' sensitivities
Warnings(M, vals, xs, r) ==
    LET due(j, k) == IF M.marks[j].t = "tight" THEN TightDue(M.marks[j], M.cons[k], vals, \E q \in 1..Len(r.dim) : r.dim[q] = k)
                     ELSE LooseDue(M.marks[j], xs[k])
        least(t, k) == Cardinality({j \in Marked(M, t) : Has(M.marks[j], k) /\ due(j, k) = "yes"})
        most(t, k) == Cardinality({j \in Marked(M, t) : Has(M.marks[j], k) /\ due(j, k) # "no"})
        bnd == TLCEval([j \in Marked(M, "bounded") |-> [c \in BoundCats |-> BoundDue(M.marks[j], c[2], c[1], vals, xs)]])
        bsaid(c) == {q \in 1..Len(r.warn) : r.warn[q].cat = c[3]}
        fits(q, j, c) == LET S == ToSet(r.warn[q].a) IN bnd[j][c].must \subseteq S /\ S \subseteq bnd[j][c].may
    IN IF M.marks = <<>> THEN "ok"
       ELSE IF \E k \in 1..Len(M.cons) : Said(r, "tight", <<k>>) < least("tight", k) THEN "a constraint that is not tight was not reported"
       ELSE IF \E k \in 1..Len(M.cons) : Said(r, "tight", <<k>>) > most("tight", k) THEN "a tight constraint was reported as loose"
       ELSE IF \E k \in 1..Len(M.cons) : Said(r, "loose", <<k>>) < least("loose", k) THEN "a constraint that is not loose was not reported"
       ELSE IF \E k \in 1..Len(M.cons) : Said(r, "loose", <<k>>) > most("loose", k) THEN "a loose constraint was reported as tight"
       ELSE IF \E j \in 1..Len(r.warn) : r.warn[j].cat \in {"tight", "loose"} /\ r.warn[j].a[1] = 0 THEN "a warning about an unknown constraint"
       ELSE IF \E c \in BoundCats, j \in Marked(M, "bounded") : bnd[j][c].must # {} /\ ~\E q \in bsaid(c) : fits(q, j, c) THEN "variables at an artificial bound were not reported"
       ELSE IF \E c \in BoundCats, q \in 1..Len(r.warn) : r.warn[q].cat = c[3] /\ ~\E j \in Marked(M, "bounded") : fits(q, j, c) THEN "variables were reported at a bound they are not at"
       ELSE IF \E c \in BoundCats : Cardinality(bsaid(c)) > Cardinality({j \in Marked(M, "bounded") : bnd[j][c].may # {}}) THEN "a bound was reported too often"
       ELSE IF \E c \in BoundCats : Cardinality(bsaid(c)) < Cardinality({j \in Marked(M, "bounded") : bnd[j][c].must # {}}) THEN "a bound was not reported"
       ELSE "ok"
(* ---- one result against the call it came from ---- *)
Result(M, S, s, P, e, c, r) ==
    LET free == FreeVars(P.posys)
        prim == ValMap(c.prim)
        vals == ValMap(r.vals)
        sens == ValMap(r.sens)
        nus == AnyNus(P, e, c)
        ns == NuSeqs(M, P, nus)
        base == DOMAIN s \ Kind(S, "link")
        direct == TLCEval([i \in 1..NV |-> VarSens(M, s, nus, ns, i)])
        want(i) == RAdd(direct[i], FoldSet(LAMBDA v, acc : IF direct[v][1] = 0 THEN acc ELSE RAdd(acc, RMul(direct[v], LinkElas(S, s, v, i))), RZero, Kind(S, "link")))
        cs == ValMap(r.cs)
        ow == P.own
        \* sensitivities to constants that stand in for others are given to those others
        named(i) == IF e.gp \/ M.move = {} THEN want(i)
                    ELSE IF \E p \in M.move : p[2] = i THEN want((CHOOSE p \in M.move : p[2] = i)[1])
                    ELSE IF \E p \in M.move : p[1] = i THEN RZero ELSE want(i)
    IN IF r.odd # "" THEN "result: " \o r.odd
       ELSE IF r.cost # c.obj THEN "the cost is not the one the solver returned"
       ELSE IF \E i \in free : i \notin DOMAIN vals THEN "a free variable has no value"
       ELSE IF \E i \in free : vals[i] # prim[i] THEN "a free variable has another value than the solver's"
       ELSE IF \E i \in DOMAIN s : i \notin DOMAIN vals THEN "a constant has no value in the result"
       ELSE IF \E i \in Kind(S, "link") : vals[i] # s[i] THEN "a linked constant does not have its function's value"
       ELSE IF \E i \in base : vals[i] # s[i] THEN "a constant has another value in the result"
       ELSE IF DOMAIN vals # free \cup DOMAIN s THEN "a value for something that is not in the program"
       ELSE IF r.split # "" THEN "free and fixed variables are mixed up: " \o r.split
       ELSE IF r.sensknown /\ \E i \in base : named(i) # (IF i \in DOMAIN sens THEN sens[i] ELSE RZero) THEN "sensitivity to a constant is wrong"
       ELSE IF r.sensknown /\ \E i \in free : named(i) # (IF i \in DOMAIN sens THEN sens[i] ELSE RZero) THEN "sensitivity to a free variable is wrong"
       ELSE IF r.sensknown /\ \E k \in ToSet(ow) : k \notin DOMAIN cs \/ cs[k] # ConLambda(M, k, ns[k]) THEN "sensitivity of a constraint is wrong"
       ELSE IF \E k \in DOMAIN cs : k \notin ToSet(ow) /\ cs[k] # RZero THEN "a dropped constraint has a sensitivity"
       ELSE IF M.move # {} /\ ~e.gp /\ \E p \in M.move : p[1] \in DOMAIN sens THEN "a sensitivity to a constant nobody knows"
       ELSE IF e.gp THEN (IF r.warn = <<>> THEN "ok" ELSE "a program's own solution has warnings")
       ELSE Warnings(M, vals, [k \in 1..Len(M.cons) |-> IF k \in ToSet(ow) THEN ConLambda(M, k, ns[k]) ELSE RZero], r)

(* ---- solve ---- *)
Raises(e, names) == e.out.t = "raise" /\ e.out.x \in names
ErrorOf(what) == CASE what = "primal" -> "PrimalInfeasible" [] what = "dual" -> "DualInfeasible"
                   [] what = "license" -> "InvalidLicense" [] what = "interrupt" -> "KeyboardInterrupt"
                   [] what \in {"nodual", "noprimal", "shortdual", "lostprimal", "lostdual"} -> "RuntimeWarning" [] OTHER -> "UnknownInfeasible"
Single(M, S, e, s) ==
    LET P == Prog(M, s)  st == P.status  nc == Len(e.calls) IN
         IF st = "badcost" THEN (IF Raises(e, {"InvalidPosynomial"}) /\ nc = 0 THEN "ok" ELSE "a cost that is not posynomial was accepted")
         ELSE IF st = "notgp" THEN (IF Raises(e, {"InvalidGPConstraint", "PrimalInfeasible"}) /\ nc = 0 THEN "ok" ELSE "a non-GP constraint was accepted: " \o e.out.t)
         ELSE IF st = "infeasible" THEN (IF Raises(e, {"PrimalInfeasible"}) /\ nc = 0 THEN "ok" ELSE "a constraint that cannot hold: " \o e.out.t)
         ELSE IF nc # 1 THEN "the solver was called " \o ToString(nc) \o " times: " \o e.out.x
         ELSE IF e.calls[1].ok # "ok" THEN
            (IF ToSet(e.calls[1].kw) # Options(e) THEN "the solver got other options than this solve's" ELSE
             IF e.out.t # "raise" THEN "a failed solve raised nothing"
             ELSE IF e.out.x # ErrorOf(e.calls[1].ok) THEN "failure " \o e.calls[1].ok \o " raised " \o e.out.x ELSE "ok")
         ELSE IF e.out.t = "raise" THEN "solve raised " \o e.out.x
         ELSE LET v == AnyCall(P, e, e.calls[1]) IN
              IF v # "ok" THEN v
              ELSE IF Len(e.out.res) # 1 THEN "not one result" ELSE Result(M, S, s, P, e, e.calls[1], e.out.res[1])

Siblings(i) == IF i \in {4, 5} THEN {4, 5} ELSE {i}          \* elements of one vector are labelled together
Labelled(S, pt, r) == LET sw == ValMap(r.sw) IN
    /\ \A i \in Swept(S) : i \in DOMAIN sw /\ sw[i] = pt[i]
    /\ \A i \in DOMAIN sw : i \in Swept(S) \/ Swept(S) \cap Siblings(i) # {}
\* the points in the order q from point n on; j-th call and r-th result are next
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(M, S, e, q, n, j, r) ==
    LET nc == Len(e.calls)  nr == Len(e.out.res) IN
    IF n = Size(S, q, 1) THEN
        IF j <= nc THEN "more solver calls than points"
        ELSE IF r = 1 THEN (IF Raises(e, {"RuntimeWarning"}) THEN "ok" ELSE "no point was solved: " \o e.out.t \o e.out.x)
        ELSE IF e.out.t = "raise" THEN "the sweep raised " \o e.out.x
        ELSE IF r <= nr THEN "more results than solved points" ELSE "ok"
    ELSE
    LET pt == Point(S, q, n)
        s == Consts(S, pt)
        P == Prog(M, s)
        st == P.status
        stop == IF j < nc THEN "the sweep went on after a failure"
                ELSE IF Raises(e, {"RuntimeWarning"}) THEN "ok" ELSE "a failing point: " \o e.out.t \o " " \o e.out.x
    IN IF st \in {"badcost", "notgp"} THEN
            (IF j > nc /\ Raises(e, {"InvalidPosynomial", "InvalidGPConstraint", "PrimalInfeasible", "RuntimeWarning"}) THEN "ok"
             ELSE IF st = "notgp" /\ e.skip THEN Walk(M, S, e, q, n + 1, j, r) ELSE "a program that is no GP was accepted")
       ELSE IF st = "infeasible" THEN (IF e.skip THEN Walk(M, S, e, q, n + 1, j, r)
                                       ELSE IF j > nc /\ Raises(e, {"RuntimeWarning", "PrimalInfeasible"}) THEN "ok" ELSE "an impossible point: " \o e.out.t)
       ELSE IF j > nc THEN "a point was not solved: " \o e.out.x
       ELSE IF e.calls[j].ok \in {"license", "interrupt", "nodual", "noprimal", "shortdual", "lostprimal", "lostdual"} THEN
            (IF j = nc /\ Raises(e, {ErrorOf(e.calls[j].ok)}) THEN "ok" ELSE "failure " \o e.calls[j].ok \o " in a sweep: " \o e.out.x)
       ELSE IF e.calls[j].ok # "ok" THEN (IF e.skip THEN Walk(M, S, e, q, n + 1, j + 1, r)
                                          ELSE stop)
       ELSE IF e.out.t = "raise" THEN Walk(M, S, e, q, n + 1, j + 1, r + 1)       \* nothing returned to compare with
       ELSE IF r > nr THEN "a solved point has no result"
       ELSE IF ~Labelled(S, pt, e.out.res[r]) THEN "a result is labelled with another point"
       ELSE LET v == AnyCall(P, e, e.calls[j]) IN
            IF v # "ok" THEN v
            ELSE LET w == Result(M, S, s, P, e, e.calls[j], e.out.res[r]) IN
                 IF w # "ok" THEN w ELSE Walk(M, S, e, q, n + 1, j + 1, r + 1)
Sweep(M, S, e) == LET os == Orders(S) IN
    IF \E q \in os : Walk(M, S, e, q, 0, 1, 1) = "ok" THEN
        (IF e.nprog >= 0 /\ e.nprog # Len(e.calls) THEN "the model keeps another number of programs than were solved" ELSE "ok")
    ELSE Walk(M, S, e, CHOOSE q \in os : \A p \in os : TRUE, 0, 1, 1)

Solve(M, S, e) ==
    IF e.restored # "" THEN "after the solve: " \o e.restored
    ELSE IF ~e.gp /\ e.out.t = "ok" /\ e.sol # "new" THEN "the solution was not recorded"
    ELSE IF e.out.t = "raise" /\ e.sol # "same" THEN "a failed solve changed the recorded solution"
    ELSE LET Z == [i \in DOMAIN S \cup {e.over[j].i : j \in 1..Len(e.over)} |->
                     IF \E o \in ToSet(e.over) : o.i = i THEN [k |-> "sweep", v |-> (CHOOSE o \in ToSet(e.over) : o.i = i).v] ELSE S[i]]
         IN IF Swept(Z) = {} THEN Single(M, Z, e, Consts(Z, <<>>)) ELSE Sweep(M, Z, e)

(* ---- the report of unlimited variables ---- *)
BoundsOf(M, S, e) ==
    LET P == Prog(M, Consts(S, <<>>))
        want == Open(P)
        got == {<<e.open[j].i, e.open[j].side>> : j \in 1..Len(e.open)}
    IN IF P.status # "ok" THEN (IF e.x # "" THEN "ok" ELSE "a program was made of a model that has none: " \o P.status)
       ELSE IF e.x # "" THEN "the program raised " \o e.x
       ELSE IF got \ want # {} THEN "a limited side is reported as unbounded"
       ELSE IF want \ got # {} THEN "an open side is not reported"
       ELSE IF Len(e.open) # Cardinality(got) THEN "a side is reported twice"
       ELSE IF want = {} /\ e.y # "" THEN "a bounded model raised " \o e.y
       ELSE IF want # {} /\ e.y # "UnboundedGP" THEN "an unbounded model was accepted: " \o e.y
       ELSE "ok"

(* ---- sequential solves ---- *)
EPSDEN == 1000000
Ones == [i \in 1..NV |-> ROne]
\* where a run starts: constants, the given guess, where the program was last (a new one: at one)
StartAt(s, e, pt) == LET x0 == ValMap(e.x0)  old == IF e.via = "again" THEN pt ELSE Ones IN
    [i \in 1..NV |-> IF i \in DOMAIN s THEN s[i] ELSE IF i \in DOMAIN x0 THEN x0[i] ELSE old[i]]
MoveTo(pt, c) == LET v == ValMap(c.prim) IN [i \in 1..NV |-> IF i \in DOMAIN v THEN v[i] ELSE pt[i]]
GotRow(ts) == {[x |-> ts[j].x, v |-> ts[j].v] : j \in 1..Len(ts)}
DistinctTerms(ts) == \A i, j \in 1..Len(ts) : ts[i].x = ts[j].x => i = j
Keep(P, pccp) == SelectSeq([k \in 1..Len(P.rows) |-> k], LAMBDA k : k = 1 \/ ~Void(P.rows[k], pccp))
\* position of the wanted row k among those received
RowAt(got, want, k) == LET eqs(q, j) == Cardinality({i \in 1..(j-1) : q[i] = q[j]}) IN
    IF \E j \in 1..Len(got) : got[j] = want[k] /\ eqs(got, j) = eqs(want, k)
    THEN CHOOSE j \in 1..Len(got) : got[j] = want[k] /\ eqs(got, j) = eqs(want, k) ELSE 0
SubCall(P, e, c) ==
    LET kept == Keep(P, e.pccp)
        want == TLCEval([j \in 1..Len(kept) |-> IF j = 1 THEN P.rows[1] ELSE Canon(P.rows[kept[j]])])
        got == TLCEval([k \in 1..Len(c.rows) |-> IF k = 1 THEN GotRow(c.rows[1]) ELSE Canon(GotRow(c.rows[k]))])
    IN IF c.consistent # "" THEN "the solver's arguments are inconsistent: " \o c.consistent
       ELSE IF Len(got) < Len(want) THEN "a constraint is missing from the sub-problem"
       ELSE IF Len(got) > Len(want) THEN "the sub-problem has a constraint too many"
       ELSE IF \E k \in 1..Len(got) : ~DistinctTerms(c.rows[k]) THEN "a row of the sub-problem has duplicate terms"
       ELSE IF got[1] # want[1] THEN "the sub-problem's cost is not the model's"
       ELSE IF \E k \in 2..Len(want) : RowAt(got, want, k) = 0 THEN
            "the sub-problem is not the model linearised at the current point: constraint "
             \o ToString(P.own[kept[CHOOSE k \in 2..Len(want) : RowAt(got, want, k) = 0]])
       ELSE "ok"
SubNus(P, e, c) ==       \* per wanted row: function from exponents to dual values
    LET kept == Keep(P, e.pccp)
        want == TLCEval([j \in 1..Len(kept) |-> IF j = 1 THEN P.rows[1] ELSE Canon(P.rows[kept[j]])])
        got == TLCEval([k \in 1..Len(c.rows) |-> IF k = 1 THEN GotRow(c.rows[1]) ELSE Canon(GotRow(c.rows[k]))])
        fun(j) == LET ts == c.rows[j] IN [x \in {ts[q].x : q \in 1..Len(ts)} |-> c.nu[j][CHOOSE q \in 1..Len(ts) : ts[q].x = x]]
    IN TLCEval([k \in 1..Len(P.rows) |-> IF \E j \in 1..Len(kept) : kept[j] = k
                                          THEN fun(RowAt(got, want, CHOOSE j \in 1..Len(kept) : kept[j] = k)) ELSE <<>>])
XNuSum(f) == RSumF(DOMAIN f, LAMBDA x : f[x])
LocalResult(M, S, s, P, e, c, r) ==
    LET prim == ValMap(c.prim)
        vals == ValMap(r.vals)
        sens == ValMap(r.sens)
        cs == ValMap(r.cs)
        nus == SubNus(P, e, c)
        slackexp == IF e.pccp THEN -1 ELSE 0
        base == DOMAIN s \ Kind(S, "link")
        rowsof(k) == SelectSeq([j \in 1..Len(P.own) |-> j], LAMBDA j : P.own[j] = k)
        tox(q, x) == [i \in 1..XV |-> IF i = XV THEN <<x, 1>> ELSE RNorm(q[i], SC)]
        conv(p, f, x) == [q \in DOMAIN p |-> f[tox(q, x)]]
        gpnus(k) == LET ps == Posys(SFormOf(M.cons[k], s))  rs == rowsof(k) IN [j \in 1..Len(ps) |-> conv(ps[j], nus[rs[j]], 0)]
        consens(k, i) == IF SFormOf(M.cons[k], s).t # "notgp" THEN ConSens(M, s, k, gpnus(k), i)
                         ELSE LET rs == rowsof(k) IN FoldSet(LAMBDA j, acc : RAdd(acc, RowSens(P.raw[rs[j]], s, slackexp, nus[rs[j]], i)), RZero, 1..Len(rs))
        lambda(k) == LET rs == rowsof(k) IN
                     IF SFormOf(M.cons[k], s).t # "notgp" THEN ConLambda(M, k, gpnus(k))
                     ELSE IF Len(rs) = 2 THEN RAbs(RSub(XNuSum(nus[rs[1]]), XNuSum(nus[rs[2]]))) ELSE XNuSum(nus[rs[1]])
        costnu == conv(PSubst(M.cost, s), nus[1], IF e.pccp THEN e.penalty ELSE 0)
        direct == TLCEval([i \in 1..NV |-> FoldSet(LAMBDA k, acc : RAdd(acc, consens(k, i)), CostSens(M, s, costnu, i), 1..Len(M.cons))])
        want(i) == RAdd(direct[i], FoldSet(LAMBDA v, acc : IF direct[v][1] = 0 THEN acc ELSE RAdd(acc, RMul(direct[v], LinkElas(S, s, v, i))), RZero, Kind(S, "link")))
        kept == ToSet(Keep(P, e.pccp))
        inprog == {k \in 1..Len(M.cons) : \E j \in kept : P.own[j] = k}
    IN IF r.odd # "" THEN "result: " \o r.odd
       ELSE IF r.cost # c.obj THEN "the cost is not the last sub-problem's"
       ELSE IF \E i \in DOMAIN prim : i \notin DOMAIN vals THEN "a free variable has no value"
       ELSE IF \E i \in DOMAIN prim : vals[i] # prim[i] THEN "a free variable has another value than the last sub-problem's"
       ELSE IF \E i \in DOMAIN s : i \notin DOMAIN vals \/ vals[i] # s[i] THEN "a constant has another value in the result"
       ELSE IF DOMAIN vals # DOMAIN prim \cup DOMAIN s THEN "a value for something that is not in the program"
       ELSE IF r.split # "" THEN "free and fixed variables are mixed up: " \o r.split
       ELSE IF r.sensknown /\ \E i \in base : want(i) # (IF i \in DOMAIN sens THEN sens[i] ELSE RZero) THEN "sensitivity to a constant is wrong"
       ELSE IF r.sensknown /\ \E i \in DOMAIN prim : want(i) # (IF i \in DOMAIN sens THEN sens[i] ELSE RZero) THEN "sensitivity to a free variable is wrong"
       ELSE IF r.sensknown /\ \E k \in inprog : k \notin DOMAIN cs \/ cs[k] # lambda(k) THEN "sensitivity of a constraint is wrong"
       ELSE IF \E k \in DOMAIN cs : k \notin inprog /\ cs[k] # RZero THEN "a dropped constraint has a sensitivity"
       ELSE IF e.via # "model" THEN (IF r.warn = <<>> THEN "ok" ELSE "a program's own solution has warnings")
       ELSE Warnings(M, vals, [k \in 1..Len(M.cons) |-> IF k \in inprog THEN lambda(k) ELSE RZero], r)
SubCols(P) == {i \in 1..NV : \E k \in 1..Len(P.rows) : \E t \in P.rows[k] : t.x[i] # RZero}
\* a wrong account of what happened on the way, or "ok"
Account(e, rises, done) ==
    IF e.rises # (IF e.verb > -1 THEN rises ELSE 0) THEN "a rising cost was reported " \o ToString(e.rises) \o " times"
    ELSE IF Len(e.results) # done THEN "not every intermediate result was kept"
    ELSE IF e.ngps # done /\ e.ngps # done + 1 THEN "not every sub-problem was kept"
    ELSE IF \E k \in 1..done : e.results[k].cost # e.calls[k].obj THEN "an intermediate result has another cost"
    ELSE IF \E k \in 1..done : ValMap(e.results[k].vals) # ValMap(e.calls[k].prim) THEN "an intermediate result has other values"
    ELSE "ok"
\* j: the next solver call; prev: the last cost to compare with (<<>> if none); done: solves so far
RECURSIVE Iterate(_, _, _, _, _, _, _, _)
Iterate(M, S, s, e, pt, j, prev, rises) ==
    LET nc == Len(e.calls) IN
    IF j > e.limit THEN
        (IF nc >= j THEN "more solves than the iteration limit"
         ELSE IF ~Raises(e, {"Infeasible"}) THEN "reaching the iteration limit: " \o e.out.t \o " " \o e.out.x
         ELSE IF e.kept # "" THEN e.kept ELSE Account(e, rises, j - 1))
    ELSE LET P == SubProblem(M, s, pt, e.pccp, e.penalty) IN
    IF \E k \in 2..Len(P.rows) : Hopeless(P.rows[k], e.pccp) THEN
        (IF nc >= j THEN "an impossible sub-problem was solved" ELSE IF Raises(e, {"PrimalInfeasible"}) THEN "ok" ELSE "an impossible sub-problem: " \o e.out.x)
    ELSE IF nc < j THEN "solving stopped early: " \o e.out.t \o " " \o e.out.x
    ELSE LET c == e.calls[j] IN
    IF ToSet(c.kw) # Options(e) THEN "the solver got other options than this solve's"
    ELSE IF c.ok # "ok" THEN
        (IF nc > j THEN "solving went on after a failure"
         ELSE IF ~Raises(e, {ErrorOf(c.ok)}) THEN "failure " \o c.ok \o ": " \o e.out.t \o " " \o e.out.x
         ELSE IF e.kept # "" THEN e.kept ELSE Account(e, rises, j - 1))
    ELSE LET v == SubCall(P, e, c) IN
    IF v # "ok" THEN v
    ELSE IF DOMAIN ValMap(c.prim) # SubCols(P) THEN "free variables and columns differ"
    ELSE LET cost == c.obj[1]  next == MoveTo(pt, c) IN
    IF prev = <<>> THEN Iterate(M, S, s, e, next, j + 1, <<cost>>, rises)
    ELSE IF cost > prev[1] THEN Iterate(M, S, s, e, next, j + 1, <<>>, rises + 1)
    ELSE IF (prev[1] - cost) * e.reltol[2] > e.reltol[1] * (prev[1] + cost) THEN Iterate(M, S, s, e, next, j + 1, <<cost>>, rises)
    ELSE IF nc > j THEN "solving went on after the tolerance was met"
    ELSE IF e.out.t = "raise" THEN "the solve raised " \o e.out.x
    ELSE LET a == Account(e, rises, j)
             over == e.pccp /\ RLt(<<EPSDEN + 1, EPSDEN>>, c.slack)
         IN IF a # "ok" THEN a
            ELSE IF e.slackwarns # (IF over /\ e.verb > -1 THEN 1 ELSE 0) THEN "remaining slack was reported " \o ToString(e.slackwarns) \o " times"
            ELSE IF Len(e.extra) # (IF over THEN 1 ELSE 0) THEN "the slack variable is in the solution, or missing from it"
            ELSE IF over /\ e.extra[1] # c.slack THEN "the slack has another value than the solver's"
            ELSE LocalResult(M, S, s, P, e, c, e.out.res[1])
Local(M, S, e, pt) ==
    LET s == Consts(S, <<>>)  st == SStatus(M, s) IN
    IF e.restored # "" THEN "after the solve: " \o e.restored
    ELSE IF st = "badcost" THEN (IF Raises(e, {"InvalidPosynomial"}) THEN "ok" ELSE "a cost that is not posynomial was accepted")
    ELSE IF st = "notgp" THEN (IF e.out.t = "raise" THEN "ok" ELSE "a constraint outside of any program was accepted")
    ELSE IF st = "infeasible" THEN (IF Raises(e, {"PrimalInfeasible"} \cup IF SigIdx(M, s) = <<>> THEN {"UnnecessarySGP"} ELSE {}) THEN "ok" ELSE "a constraint that cannot hold: " \o e.out.t)
    ELSE IF st = "unnecessary" THEN (IF Raises(e, {"UnnecessarySGP"}) THEN "ok" ELSE "a geometric program was solved sequentially")
    ELSE IF e.via = "model" /\ e.out.t = "ok" /\ e.sol # "new" THEN "the solution was not recorded"
    ELSE IF e.out.t = "raise" /\ e.sol # "same" THEN "a failed solve changed the recorded solution"
    ELSE Iterate(M, S, s, e, StartAt(s, e, pt), 1, <<>>, 0)
\* the point of the last sub-problem of the run
LastPoint(M, S, e, pt) == LET s == Consts(S, <<>>)  n == Len(e.calls) IN
    IF n <= 1 THEN StartAt(s, e, pt) ELSE FoldLeft(LAMBDA x, c : MoveTo(x, c), StartAt(s, e, pt), SubSeq(e.calls, 1, n - 1))

Verdict(e, M, S) ==
    CASE e.op = "set" -> "ok"
      [] e.op = "del" -> "ok"
      [] e.op = "fail" -> e.msg
      [] e.op = "bounds" -> BoundsOf(M, S, e)
      [] e.op = "local" -> Local(M, S, e, spot)
      [] e.op = "solve" -> Solve(M, S, e)
NextSubs(e, S) == CASE e.op = "set" -> [i \in DOMAIN S \cup {e.i} |-> IF i = e.i THEN e.v ELSE S[i]]
                    [] e.op = "del" -> [i \in DOMAIN S \ {e.i} |-> S[i]]
                    [] OTHER -> S

Init == tid \in 1..Len(Traces) /\ l = 1 /\ subs = <<>> /\ bad = "" /\ spot = [i \in 1..NV |-> ROne]
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               v == Verdict(e, Model(T), subs)
           IN /\ bad' = IF v = "ok" THEN "" ELSE v
              /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
              /\ subs' = NextSubs(e, subs)
              /\ spot' = IF e.op = "local" /\ v = "ok" /\ e.via # "model" THEN LastPoint(Model(T), subs, e, spot) ELSE spot
              /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
