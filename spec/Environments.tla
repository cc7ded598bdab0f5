---------------------------- MODULE Environments ----------------------------
(* Declaration environments: `with SignomialsEnabled()`, `with Vectorize(n)`,
   `with NamedVariables(name)` and the setup of a Model subclass.

   The state is the stack of environments in force and, per scope and name,
   how many named scopes have been opened there.  Everything a declaration
   sees is derived from the stack: that is the property - whatever way the
   stack came to be, by whatever entries, re-entries, normal exits or
   exceptions unwinding several levels.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Names, Dims, MaxDepth, MaxScopes, Kinds

VARIABLES stack,   \* sequence of [k, a]: kind and argument; for scopes also its number
          nums,    \* nums[<<scope path, name>>]: scopes opened so far (a sequence of pairs -> count)
          act
vars == <<stack, nums, act>>
view == <<stack, nums>>

Frame(k, a, n) == [k |-> k, a |-> a, n |-> n]
IsScope(f) == f.k \in {"named", "model"}

Lineage(s) == [i \in 1..Len(SelectSeq(s, IsScope)) |->
                 LET f == SelectSeq(s, IsScope)[i] IN <<f.a, f.n>>]
\* the innermost vectorisation is the first dimension
Vec(s) == LET v == SelectSeq(s, LAMBDA f : f.k = "vec") IN [i \in 1..Len(v) |-> v[Len(v) + 1 - i].a]
Signomials(s) == \E i \in 1..Len(s) : s[i].k = "sig"

Count(s, name) == LET key == [path |-> Lineage(s), name |-> name]
                      hits == {x \in nums : x.key = key}
                  IN IF hits = {} THEN 0 ELSE (CHOOSE x \in hits : TRUE).n
Opened(s, name) == LET key == [path |-> Lineage(s), name |-> name]
                   IN {x \in nums : x.key # key} \union {[key |-> key, n |-> Count(s, name) + 1]}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x.n + Total(S \ {x})

Init == stack = <<>> /\ nums = {} /\ act = [op |-> "init"]

EnterSig == /\ "sig" \in Kinds /\ Len(stack) < MaxDepth
            /\ stack' = Append(stack, Frame("sig", 0, 0)) /\ UNCHANGED nums
            /\ act' = [op |-> "enter", k |-> "sig"]
EnterVec(d) == /\ "vec" \in Kinds /\ Len(stack) < MaxDepth
               /\ stack' = Append(stack, Frame("vec", d, 0)) /\ UNCHANGED nums
               /\ act' = [op |-> "enter", k |-> "vec", a |-> d]
EnterScope(kind, name) ==
    /\ kind \in Kinds /\ Len(stack) < MaxDepth /\ Total(nums) < MaxScopes
    /\ stack' = Append(stack, Frame(kind, name, Count(stack, name)))
    /\ nums' = Opened(stack, name)
    /\ act' = [op |-> "enter", k |-> kind, a |-> name]
Exit == /\ stack # <<>>
        /\ stack' = Front(stack) /\ UNCHANGED nums
        /\ act' = [op |-> "exit"]
\* an exception leaves n environments at once and is caught outside them
Raise(n) == /\ n \in 1..Len(stack)
            /\ stack' = SubSeq(stack, 1, Len(stack) - n) /\ UNCHANGED nums
            /\ act' = [op |-> "raise", n |-> n]

Next == \/ EnterSig
        \/ \E d \in Dims : EnterVec(d)
        \/ \E n \in Names : EnterScope("named", n) \/ EnterScope("model", n)
        \/ Exit
        \/ \E n \in 1..MaxDepth : Raise(n)
Spec == Init /\ [][Next]_vars

(* what a declaration made now must look like *)
Obs == [lineage |-> Lineage(stack), vec |-> Vec(stack), sig |-> Signomials(stack)]

\* two scopes that were ever opened differ in their full path
UniquePaths == \A x \in nums : x.n > 0
\* leaving restores: the observation after leaving equals that of the enclosing stack (by construction),
\* and numbering is never rolled back
NumsMonotone == [][\A x \in nums : \E y \in nums' : y.key = x.key /\ y.n >= x.n]_vars
\* a newly opened scope has a path no earlier scope had
FreshScope == [][(act'.op = "enter" /\ act'.k \in {"named", "model"})
                 => ~\E x \in nums : x.key = [path |-> Lineage(stack), name |-> act'.a] /\ Last(stack').n < x.n]_vars

EmitTransition == PrintT("@@" \o ToJson([from |-> <<stack, nums>>, act |-> act', to |-> <<stack', nums'>>]))
EmitState == PrintT("@@" \o ToJson([state |-> <<stack, nums>>, obs |-> Obs]))
=============================================================================
