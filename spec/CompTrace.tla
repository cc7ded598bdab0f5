------------------------------ MODULE CompTrace ------------------------------
(* Validates recorded constructions of models out of constraints, lists,
   dictionaries, sets and sub-models against Composition.                     *)
EXTENDS Composition, Arrays, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, pend, const, groups, of, nodes, bad
vars == <<tid, l, pend, const, groups, of, nodes, bad>>
T == Traces[tid]
NewNode(e, np) == Node(e.kids, SetOf(e.own), SetOf(e.cost), e.subs, nodes, np)
Grow(f, n, v) == [i \in 1..n |-> IF i <= Len(f) THEN f[i] ELSE v]
NV == Len(pend)
\* what a name stands for among a node's variables
Join(q, sep) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o sep \o x, "", q)
Full(g) == Join(g.lin \o <<g.name>>, ".")
Pos(g, i) == CHOOSE j \in 1..Len(g.ids) : g.ids[j] = i
NamesOf(g, i) == {g.name, Full(g)} \cup (IF g.sh = <<>> THEN {} ELSE LET ix == Unravel(Pos(g, i) - 1, g.sh) IN
                     {Full(g) \o "[" \o Join([k \in 1..Len(ix) |-> ToString(ix[k])], ",") \o "]"})
Matching(n, e) == IF e.by = "name" THEN {i \in nodes[n].vks : e.name \in NamesOf(groups[of[i]], i)}
                  ELSE nodes[n].vks \cap SetOf(e.ids)
\* how node n's values should look after e: changed in one place, or unchanged
SetIn(n, e) == [nodes[n] EXCEPT !.subs = Explicit(<<[ids |-> e.ids, v |-> e.v]>>, nodes[n].subs)]
Nodes2(e) == CASE e.op = "node" -> IF e.out = "ok" THEN Append([k \in 1..Len(nodes) |-> nodes[k]], NewNode(e, pend)) ELSE nodes
               [] e.op = "set" -> IF e.out = "ok" THEN [nodes EXCEPT ![e.n] = SetIn(e.n, e)] ELSE nodes
               [] OTHER -> nodes
RECURSIVE HasBad(_)
HasBad(kids) == \E j \in 1..Len(kids) : kids[j].t = "bad" \/ (kids[j].t = "raw" /\ HasBad(kids[j].kids))
SubsSeen(e, ns) == \A k \in 1..Len(ns) : [i \in 1..NV |-> e.seen[k][i]] = ns[k].subs
Verdict(e) ==
    IF e.op = "var" THEN "ok"
    ELSE IF e.op = "node" THEN
        (IF HasBad(e.kids) THEN (IF e.out = "ok" THEN "something that is no constraint was accepted" ELSE "ok")
         ELSE IF e.out # "ok" THEN "building a " \o e.kind \o " raised " \o e.out
         ELSE LET n == NewNode(e, pend) IN
              IF e.flat # n.flat THEN "a " \o e.kind \o " has other constraints than its parts"
              ELSE IF SetOf(e.vks) # n.vks \/ Len(e.vks) # Cardinality(n.vks) THEN "a " \o e.kind \o " has other variables than its parts"
              ELSE IF ~SubsSeen(e, Nodes2(e)) THEN "after building a " \o e.kind \o " substitutions differ"
              ELSE IF e.kidsame # TRUE THEN "a " \o e.kind \o " does not give its parts back"
              ELSE "ok")
    ELSE IF e.op = "set" THEN
        (IF e.out # "ok" THEN "setting a substitution raised " \o e.out
         ELSE IF ~SubsSeen(e, Nodes2(e)) THEN "after setting a substitution substitutions differ" ELSE "ok")
    ELSE IF e.op = "show" THEN (IF e.out # "ok" THEN e.how \o " raised " \o e.out
         ELSE IF ~SubsSeen(e, nodes) THEN "substitutions differ after " \o e.how
         ELSE IF e.flat # nodes[e.n].flat \/ SetOf(e.vks) # nodes[e.n].vks THEN "constraints or variables differ after " \o e.how ELSE "ok")
    ELSE IF e.op = "look" THEN
        LET M == Matching(e.n, e)  r == Lookup(M, of, groups) IN
        (IF e.by = "el" /\ M # {} THEN (IF e.out.t = "var" /\ e.out.ids = e.ids THEN "ok" ELSE "looking up an element gives " \o e.out.t)
         ELSE IF e.out = r THEN "ok" ELSE "looking up by " \o e.by \o " gives " \o e.out.t)
    ELSE IF e.op = "byname" THEN
        LET M == Matching(e.n, e) IN IF SetOf(e.ids2) = M /\ Len(e.ids2) = Cardinality(M) THEN "ok" ELSE "variables_byname gives other variables"
    ELSE "what is " \o e.op
Init == tid \in 1..Len(Traces) /\ l = 1 /\ pend = <<>> /\ const = <<>> /\ groups = <<>> /\ of = <<>> /\ nodes = <<>> /\ bad = ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]  v == Verdict(e)
               n == IF e.op = "var" THEN Len(pend) + Len(e.ids) ELSE Len(pend) IN
           /\ bad' = IF v = "ok" THEN "" ELSE v
           /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
           /\ nodes' = IF e.op = "var" THEN [k \in 1..Len(nodes) |-> [nodes[k] EXCEPT !.subs = Grow(@, n, "")]]
                       ELSE IF v = "ok" THEN Nodes2(e) ELSE nodes
           /\ pend' = IF e.op = "var" THEN pend \o e.vals
                      ELSE IF v = "ok" /\ e.op = "node" /\ e.out = "ok" THEN Taken(NewNode(e, pend), pend, const) ELSE pend
           /\ const' = IF e.op = "var" THEN Grow(const, n, e.const) ELSE const
           /\ groups' = IF e.op = "var" THEN Append(groups, [sh |-> e.sh, ids |-> e.ids, name |-> e.name, lin |-> e.lin]) ELSE groups
           /\ of' = IF e.op = "var" THEN Grow(of, n, Len(groups) + 1) ELSE of
           /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
