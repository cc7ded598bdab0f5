------------------------------- MODULE Sankey -------------------------------
(* Diagrams of where a solution's sensitivities come from.  The sensitivity of
   each constraint (or to one variable in each constraint) flows to the array,
   labelled group or model it is in, and on to the model the diagram is of.

   Sets of constraints, as trees:
     [k |-> "leaf",  title, on, s, ss]   a constraint; on: it is in the program; s, its sensitivity; ss, its
                                     sensitivities to the variables in it: [i, c]
     [k |-> "list",  kids]           constraints that are merely together
     [k |-> "array", title, kids]    the elements of a comparison of arrays
     [k |-> "dict",  labels, kids]   labelled groups
     [k |-> "model", title, consts, kids, labels]   a model of its own class; its
                                     constants [title, s, has, vec, vtitle]: vec, the
                                     vector of equal elements it is part of (0: none)
   Flows are <<rational, n>>: plus n times a number too small to matter, which
   keeps what has no sensitivity in the picture.                              *)
EXTENDS Rational, SequencesExt, FiniteSetsExt, Functions

FZero == <<RZero, 0>>
FAdd(a, b) == <<RAdd(a[1], b[1]), a[2] + b[2]>>
Sum(ns) == FoldSeq(LAMBDA n, acc : FAdd(acc, n.v), FZero, ns)       \* of the nodes ns
FNeg(s) == IF s[1] = 0 THEN <<RZero, -1>> ELSE <<RNeg(RAbs(s)), 0>>
Node(title, tag, v, kids) == [title |-> title, tag |-> tag, v |-> v, kids |-> kids]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* what a constraint contributes; var = 0: no variable is asked about
Leaf(c, var) ==
    IF var = 0 THEN (IF c.on THEN FNeg(c.s) ELSE FZero)
    ELSE LET S == {k \in 1..Len(c.ss) : c.ss[k].i = var} IN
         IF S = {} THEN FZero ELSE LET x == c.ss[CHOOSE k \in S : TRUE].c IN IF x[1] = 0 THEN <<RZero, 1>> ELSE <<x, 0>>
\* constants count as constraints; elements of one vector go together
ConstFlow(x) == IF x.has THEN <<RNeg(RAbs(x.s)), 0>> ELSE <<RZero, -1>>
Consts(cs) ==
    LET single == SelectSeq(cs, LAMBDA x : x.vec = 0)
        vecs == SetToSortSeq({cs[k].vec : k \in 1..Len(cs)} \ {0}, LAMBDA a, b : a < b)
        of(v) == SelectSeq(cs, LAMBDA x : x.vec = v)
        el(v) == [k \in 1..Len(of(v)) |-> Node(of(v)[k].title, "subarray", ConstFlow(of(v)[k]), <<>>)]
    IN [k \in 1..Len(single) |-> Node(single[k].title, "constraint", ConstFlow(single[k]), <<>>)]
       \o [k \in 1..Len(vecs) |-> Node(of(vecs[k])[1].vtitle, "constraint", Sum(el(vecs[k])), el(vecs[k]))]
\* [v, the flow out of a set of constraints; kids, the nodes it comes from]
RECURSIVE Flow(_, _, _, _)
Flow(c, var, labelled, sub) ==
    CASE c.k = "leaf" -> LET v == Leaf(c, var) IN [v |-> v, kids |-> IF labelled THEN <<>> ELSE <<Node(c.title, IF sub THEN "subarray" ELSE "constraint", v, <<>>)>>]
      [] c.k = "list" -> LET fs == [k \in 1..Len(c.kids) |-> Flow(c.kids[k], var, FALSE, sub)] IN
                         [v |-> Sum(fs), kids |-> Cat([k \in 1..Len(fs) |-> fs[k].kids])]
      [] c.k = "array" -> LET f == Flow([k |-> "list", kids |-> c.kids], var, FALSE, TRUE) IN [v |-> f.v, kids |-> <<Node(c.title, "constraint", f.v, f.kids)>>]
      [] c.k = "dict" -> LET fs == [k \in 1..Len(c.kids) |-> Flow(c.kids[k], var, TRUE, FALSE)]
                             ns == [k \in 1..Len(fs) |-> Node(c.labels[k], "", fs[k].v, fs[k].kids)] IN [v |-> Sum(ns), kids |-> ns]
      [] c.k = "model" -> LET own == IF var = 0 /\ ~labelled THEN Consts(c.consts) ELSE <<>>
                              f == Flow(IF c.labels = <<>> THEN [k |-> "list", kids |-> c.kids] ELSE [k |-> "dict", labels |-> c.labels, kids |-> c.kids], var, FALSE, sub)
                              v == FAdd(Sum(own), f.v)
                          IN [v |-> v, kids |-> IF labelled THEN own \o f.kids ELSE <<Node(c.title, "", v, own \o f.kids)>>]
\* the diagram of c: of a variable, its root is the variable, with the model (and the cost) flowing into it
Diagram(c, var, root, label, cost) ==
    LET f == Flow(c, var, c.k = "model", FALSE)
        own == IF c.k = "model" /\ var = 0 THEN Consts(c.consts) ELSE <<>>
        v == FAdd(Sum(own), f.v)
    IN IF var = 0 THEN Node(root, "", v, own \o f.kids)
       ELSE Node(root, "", FZero, <<Node(label, "", f.v, f.kids)>> \o (IF cost = <<>> THEN <<>> ELSE <<Node("[cost function]", "", <<cost[1], 0>>, <<>>)>>))

\* its links, one from each node but the root: [path, title, tag, v]
RECURSIVE Links(_, _)
Links(n, path) == UNION {LET k == n.kids[i]  p == Append(path, i) IN {[path |-> p, title |-> k.title, tag |-> k.tag, v |-> k.v]} \cup Links(k, p) : i \in 1..Len(n.kids)}
RECURSIVE Depth(_)
Depth(n) == IF n.kids = <<>> THEN 0 ELSE 1 + Max({Depth(n.kids[i]) : i \in 1..Len(n.kids)})
Mag(v) == RAbs(v[1])
Above(v, m) == RLt(m, Mag(v)) \/ (m[1] = 0 /\ v[2] # 0)
Insensitive == <<1, 100>>
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
(* what is shown: never less than minsens, only what is below top, and, one step after the other while there
   are more links than wanted, not the elements of arrays, the constraints that hardly matter, the deepest
   levels (keeping one), and at last not the constraints                                                       *)
RECURSIVE Cull(_, _, _, _)
Cull(L, want, depth, least) == IF Cardinality(L) <= want \/ depth <= least THEN L ELSE Cull({x \in L : Len(x.path) < depth}, want, depth - 1, least)
Step(L, want, keep(_)) == IF Cardinality(L) <= want THEN L ELSE {x \in L : keep(x)}
Shown(n, top, minsens, maxlinks, cons) ==
    LET a == {x \in Links(n, <<>>) : Prefix(top, x.path) /\ Above(x.v, minsens)}
        b == IF cons THEN a ELSE {x \in a : x.tag \notin {"constraint", "subarray"}}
        c == Step(b, maxlinks, LAMBDA x : x.tag # "subarray")
        d == Step(c, maxlinks, LAMBDA x : x.tag # "constraint" \/ Above(x.v, Insensitive))
        e == Cull(d, maxlinks, Depth(n) - 1, Len(top) + 1)
    IN Step(e, maxlinks, LAMBDA x : x.tag # "constraint")
Up(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE TitleAt(_, _)
TitleAt(n, p) == IF p = <<>> THEN n.title ELSE TitleAt(n.kids[p[1]], Tail(p))
=============================================================================
