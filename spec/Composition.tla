----------------------------- MODULE Composition -----------------------------
(* How constraint sets are put together.  Scalars are numbered 1..; a value is
   a string, "" for none.  A declared value waits with its variable until the
   first set that holds the variable takes it over.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
SetOf(s) == {s[j] : j \in 1..Len(s)}
NoSubs(n) == [i \in 1..n |-> ""]
Over(f, g) == [i \in 1..Len(g) |-> IF f[i] # "" THEN f[i] ELSE g[i]]      \* f where it has something
\* the parts of nested lists and dictionaries, in order: leaves and nodes
RECURSIVE Parts(_)
Parts(kids) == IF kids = <<>> THEN <<>>
               ELSE LET k == Head(kids) IN (IF k.t = "raw" THEN Parts(k.kids) ELSE <<k>>) \o Parts(Tail(kids))
PartFlat(p, nodes) == IF p.t = "leaf" THEN p.c ELSE nodes[p.n].flat
PartVks(p, nodes) == IF p.t = "leaf" THEN UNION {SetOf(p.v[j]) : j \in 1..Len(p.v)} ELSE nodes[p.n].vks
OnlyOf(S, f) == [i \in 1..Len(f) |-> IF i \in S THEN f[i] ELSE ""]
PartSubs(p, nodes, pend) == IF p.t = "leaf" THEN OnlyOf(PartVks(p, nodes), pend) ELSE nodes[p.n].subs
\* explicit substitutions, one after the other
Explicit(subs, f) == FoldLeft(LAMBDA acc, s : [i \in 1..Len(acc) |-> IF i \in SetOf(s.ids) THEN s.v[CHOOSE j \in 1..Len(s.ids) : s.ids[j] = i] ELSE acc[i]], f, subs)
Node(kids, own, cost, subs, nodes, pend) ==
    LET ps == Parts(kids)
        parts == FoldLeft(LAMBDA acc, p : Over(PartSubs(p, nodes, pend), acc), OnlyOf(own, pend), ps)
        withcost == Over(OnlyOf(cost, pend), parts)
    IN [flat |-> FlattenSeq([j \in 1..Len(ps) |-> PartFlat(ps[j], nodes)]),
        vks |-> own \cup cost \cup UNION {PartVks(ps[j], nodes) : j \in 1..Len(ps)},
        subs |-> Explicit(subs, withcost)]
\* the set takes over the declared values it holds
Taken(node, pend, const) == [i \in 1..Len(pend) |-> IF i \in node.vks /\ node.subs[i] # "" /\ ~const[i] THEN "" ELSE pend[i]]
\* looking something up: the matching scalars, and what that gives
Lookup(M, group, whole) ==
    IF M = {} THEN [t |-> "KeyError", ids |-> <<>>]
    ELSE LET gs == {group[i] : i \in M} IN
         IF Cardinality(gs) > 1 THEN [t |-> "ValueError", ids |-> <<>>]
         ELSE LET g == whole[CHOOSE x \in gs : TRUE] IN
              IF g.sh = <<>> THEN [t |-> "var", ids |-> g.ids]
              ELSE [t |-> "vec", ids |-> [j \in 1..Len(g.ids) |-> IF g.ids[j] \in M THEN g.ids[j] ELSE 0]]
=============================================================================
