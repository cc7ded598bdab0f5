--------------------------- MODULE CompositionLaws ---------------------------
(* Sets put together in every way out of a few constraints and two variables:
   nothing is lost and nothing is invented.                                   *)
EXTENDS Composition
CONSTANTS MaxNodes
VARIABLES pend, nodes
vars == <<pend, nodes>>
LeafA == [t |-> "leaf", c |-> <<1>>, v |-> <<<<1>>>>]
LeafB == [t |-> "leaf", c |-> <<2, 3>>, v |-> <<<<1>>, <<1, 2>>>>]
Ref(k) == [t |-> "node", n |-> k]
Basic == {LeafA, LeafB} \cup {Ref(k) : k \in 1..Len(nodes)}
Lists == {<<>>} \cup {<<a>> : a \in Basic} \cup {<<a, b>> : a, b \in Basic} \cup {<<[t |-> "raw", kids |-> <<a, b>>]>> : a, b \in Basic}
Subs == {<<>>, <<[ids |-> <<1>>, v |-> <<"9">>]>>}
Const == <<FALSE, TRUE>>
Init == pend \in [1..2 -> {"", "p"}] /\ nodes = <<>>
Build == /\ Len(nodes) < MaxNodes
         /\ \E kids \in Lists, own \in {{}, {2}}, cost \in {{}, {1}}, subs \in Subs :
              LET n == Node(kids, own, cost, subs, nodes, pend) IN nodes' = Append(nodes, n) /\ pend' = Taken(n, pend, Const)
Set == \E k \in 1..Len(nodes), i \in 1..2 : nodes' = [nodes EXCEPT ![k].subs[i] = "s"] /\ UNCHANGED pend
Next == Build \/ (Len(nodes) < MaxNodes /\ Set)
\* values are only those that were given, and a constant's value never goes
Given == \A k \in 1..Len(nodes), i \in 1..2 : nodes[k].subs[i] \in {"", "p", "9", "s"}
\* a declared value is either still with its variable or some set has one for it
Kept == [][\A i \in 1..2 : (pend[i] # "" /\ pend'[i] = "") => \E k \in 1..Len(nodes') : nodes'[k].subs[i] # ""]_vars
ConstKept == [][\A i \in 1..2 : Const[i] => pend'[i] = pend[i]]_vars
\* the whole has what its parts have: checked for the node that was added
Whole == [][(Len(nodes') > Len(nodes)) => LET w == nodes'[Len(nodes')] IN
             \A i \in 1..2 : /\ (w.subs[i] # "" => \/ \E k \in 1..Len(nodes) : nodes[k].subs[i] # ""
                                                   \/ pend[i] # "" \/ w.subs[i] = "9")
                             /\ (w.subs[i] # "" /\ i \in w.vks /\ ~Const[i] => pend'[i] = "")]_vars
Older == [][\A k \in 1..Len(nodes) : nodes'[k].flat = nodes[k].flat /\ nodes'[k].vks = nodes[k].vks]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
