------------------------------ MODULE KeyDict ------------------------------
(* Variable-keyed dictionaries (substitutions, solutions, sensitivities):
   the abstract map from variables to values, and every operation through
   every accepted way of naming a variable.

   An *entry* is a scalar variable or a whole vector variable.  A dictionary
   maps each entry to <<>> (absent), <<v>> (scalar) or <<v1..vn>> (vector,
   "nan" = this element has no value; a vector without any value is absent).

   Several dictionaries can exist side by side; Copy creates one from another
   and from then on the two are unrelated (properties P05 and P06).

   The universe is data (JSON), so that the same specification is explored
   over several collections of like-named variables.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIV)
(* U.ent   : sequence of [name, lineage, size]   (size 0 : scalar)
   U.dicts : number of dictionaries
   U.vals  : values numbers can take (strings)
   U.subs  : TRUE - the dictionary is a model's substitutions: names are
             resolved against the model's variables, FALSE - against the
             variables the dictionary holds
   U.ops   : names of the operations explored                                *)

Ent == 1..Len(U.ent)
D == 1..U.dicts
Vals == ToSet(U.vals)
Nums == Vals \ {"f"}    \* "f": a function (a linked constant)
IsVec(e) == U.ent[e].size > 0
Idx(e) == 1..U.ent[e].size
Ops == ToSet(U.ops)

RECURSIVE Join(_, _)
Join(seq, sep) == IF Len(seq) = 0 THEN ""
                  ELSE IF Len(seq) = 1 THEN seq[1]
                  ELSE seq[1] \o sep \o Join(Tail(seq), sep)

\* the ways an entry can be named by text: bare, or qualified by its models
Qualified(e) == Join(Append(U.ent[e].lineage, U.ent[e].name), ".")
Names(e) == {U.ent[e].name, Qualified(e)}
AllNames == UNION {Names(e) : e \in Ent}
ElemName(e, i) == Qualified(e) \o "[" \o ToString(i-1) \o "]"
ElemNames == {ElemName(x[1], x[2]) : x \in {<<e, i>> \in Ent \X (1..9) : IsVec(e) /\ i \in Idx(e)}}

Absent == <<>>
Content(e) == IF IsVec(e) THEN {c \in [Idx(e) -> Vals \union {"nan"}] : \E i \in Idx(e) : c[i] # "nan"}
                          ELSE {<<v>> : v \in Vals}
NoVal(e) == [i \in Idx(e) |-> "nan"]

Present(m) == {e \in Ent : m[e] # Absent}
Hits(m, n) == {e \in Present(m) : n \in Names(e)}

-----------------------------------------------------------------------------
(* how text resolves in a model's substitutions *)
Denotes(n) ==  \* entries of the model the text n names, and single elements
    {e \in Ent : n \in Names(e)}
DenotesElem(n) == {x \in Ent \X (1..9) : IsVec(x[1]) /\ x[2] \in Idx(x[1]) /\ n = ElemName(x[1], x[2])}
Ambiguous(n) == Cardinality(Denotes(n)) > 1

-----------------------------------------------------------------------------
(* the operations: new content of a dictionary *)
SetScalar(m, e, v) == [m EXCEPT ![e] = <<v>>]
SetFull(m, e, v)   == [m EXCEPT ![e] = [i \in Idx(e) |-> v]]      \* broadcast
SetArray(m, e, c)  ==                                             \* elements without a value keep theirs
    [m EXCEPT ![e] = IF m[e] = Absent THEN c
                     ELSE [i \in Idx(e) |-> IF c[i] = "nan" THEN m[e][i] ELSE c[i]]]
SetElem(m, e, i, v) ==
    [m EXCEPT ![e] = [(IF m[e] = Absent THEN NoVal(e) ELSE m[e]) EXCEPT ![i] = v]]
DelEntry(m, e) == [m EXCEPT ![e] = Absent]
DelElem(m, e, i) ==
    LET c == [m[e] EXCEPT ![i] = "nan"] IN [m EXCEPT ![e] = IF c = NoVal(e) THEN Absent ELSE c]
DelAll(m, S) == [e \in Ent |-> IF e \in S THEN Absent ELSE m[e]]
Merge(m, o) ==     \* update m with everything in o
    [e \in Ent |-> IF o[e] = Absent THEN m[e]
                   ELSE IF IsVec(e) THEN SetArray(m, e, o[e])[e] ELSE o[e]]

-----------------------------------------------------------------------------
VARIABLES d,    \* d[i]: content of dictionary i
          act   \* the operation just taken and what it returned (not part of the state proper)

vars == <<d, act>>
view == d
Empty == [e \in Ent |-> Absent]
Init == d = [i \in D |-> Empty] /\ act = [op |-> "init"]

Do(i, m, rec) == d' = [d EXCEPT ![i] = m] /\ act' = rec
Fail(rec) == UNCHANGED d /\ act' = rec

OpSetScalar(i, e, v) == /\ "set" \in Ops /\ ~IsVec(e)
    /\ Do(i, SetScalar(d[i], e, v), [op |-> "set", d |-> i, e |-> e, v |-> v, r |-> "ok"])
OpSetFull(i, e, v) == /\ "setfull" \in Ops /\ IsVec(e) /\ v \in Nums
    /\ Do(i, SetFull(d[i], e, v), [op |-> "setfull", d |-> i, e |-> e, v |-> v, r |-> "ok"])
OpSetArray(i, e, c) == /\ "setarray" \in Ops /\ IsVec(e)
    /\ Do(i, SetArray(d[i], e, c), [op |-> "setarray", d |-> i, e |-> e, c |-> c, r |-> "ok"])
OpSetList(i, e, c) == /\ "setlist" \in Ops /\ IsVec(e) /\ \A j \in Idx(e) : c[j] # "nan"
    /\ Do(i, SetArray(d[i], e, c), [op |-> "setlist", d |-> i, e |-> e, c |-> c, r |-> "ok"])
OpSetElem(i, e, j, v) == /\ "setelem" \in Ops /\ IsVec(e)
    /\ Do(i, SetElem(d[i], e, j, v), [op |-> "setelem", d |-> i, e |-> e, i |-> j, v |-> v, r |-> "ok"])
OpDel(i, e) == /\ "del" \in Ops
    /\ LET rec(r) == [op |-> "del", d |-> i, e |-> e, r |-> r] IN
       IF d[i][e] = Absent THEN Fail(rec("KeyError")) ELSE Do(i, DelEntry(d[i], e), rec("ok"))
OpDelElem(i, e, j) == /\ "delelem" \in Ops /\ IsVec(e)
    /\ LET rec(r) == [op |-> "delelem", d |-> i, e |-> e, i |-> j, r |-> r] IN
       IF d[i][e] = Absent THEN Fail(rec("KeyError")) ELSE Do(i, DelElem(d[i], e, j), rec("ok"))
OpDelName(i, n) == /\ "delname" \in Ops
    /\ LET rec(r) == [op |-> "delname", d |-> i, n |-> n, r |-> r] IN
       IF Hits(d[i], n) # {} THEN Do(i, DelAll(d[i], Hits(d[i], n)), rec("ok"))
       ELSE IF U.subs /\ DenotesElem(n) # {} THEN
            LET x == CHOOSE x \in DenotesElem(n) : TRUE IN
            IF d[i][x[1]] = Absent THEN Fail(rec("KeyError")) ELSE Do(i, DelElem(d[i], x[1], x[2]), rec("ok"))
       ELSE Fail(rec("KeyError"))
\* writing by text: only a model's substitutions know which variable is meant
OpSetName(i, n, v) == /\ "setname" \in Ops /\ U.subs /\ (v \notin Nums => \A e \in Denotes(n) : ~IsVec(e))
    /\ LET rec(r) == [op |-> "setname", d |-> i, n |-> n, v |-> v, r |-> r] IN
       IF Denotes(n) = {} /\ DenotesElem(n) = {} THEN Fail(rec("KeyError"))
       ELSE IF Cardinality(Denotes(n)) > 1 THEN Fail(rec("ValueError"))
       ELSE IF Denotes(n) = {} THEN LET x == CHOOSE x \in DenotesElem(n) : TRUE IN
                                    Do(i, SetElem(d[i], x[1], x[2], v), rec("ok"))
       ELSE LET e == CHOOSE e \in Denotes(n) : TRUE IN
            IF IsVec(e) THEN Do(i, SetFull(d[i], e, v), rec("ok")) ELSE Do(i, SetScalar(d[i], e, v), rec("ok"))
\* dictionary j is made anew from dictionary i
OpCopy(i, j) == /\ "copy" \in Ops /\ i # j
    /\ Do(j, d[i], [op |-> "copy", d |-> j, from |-> i, r |-> "ok"])
\* dictionary j is updated with dictionary i
OpUpdate(i, j) == /\ "update" \in Ops /\ i # j
    /\ Do(j, Merge(d[j], d[i]), [op |-> "update", d |-> j, from |-> i, r |-> "ok"])
\* one array object is given as the value to every dictionary
OpSetShared(e, c) == /\ "setshared" \in Ops /\ IsVec(e) /\ \A j \in Idx(e) : c[j] # "nan"
    /\ d' = [i \in D |-> SetArray(d[i], e, c)]
    /\ act' = [op |-> "setshared", d |-> 1, e |-> e, c |-> c, r |-> "ok"]
\* an array read from a dictionary is written to in place: nobody else may notice
OpWriteRead(i, e, j, v) == /\ "writeread" \in Ops /\ IsVec(e) /\ d[i][e] # Absent
    /\ Do(i, SetElem(d[i], e, j, v), [op |-> "writeread", d |-> i, e |-> e, i |-> j, v |-> v, r |-> "ok"])

Next ==
    \/ \E i \in D, e \in Ent, v \in Vals : OpSetScalar(i, e, v) \/ OpSetFull(i, e, v)
    \/ \E i \in D, e \in Ent : IsVec(e) /\ \E c \in Content(e) : OpSetArray(i, e, c) \/ OpSetList(i, e, c)
    \/ \E e \in Ent : IsVec(e) /\ \E c \in Content(e) : OpSetShared(e, c)
    \/ \E i \in D, e \in Ent : IsVec(e) /\ \E j \in Idx(e) :
          \/ OpDelElem(i, e, j)
          \/ \E v \in Vals : OpSetElem(i, e, j, v) \/ OpWriteRead(i, e, j, v)
    \/ \E i \in D, e \in Ent : OpDel(i, e)
    \/ \E i \in D, n \in AllNames \union ElemNames \union {"nosuchname"} : OpDelName(i, n)
    \/ \E i \in D, n \in AllNames \union ElemNames \union {"nosuchname"}, v \in Vals : OpSetName(i, n, v)
    \/ \E i, j \in D : OpCopy(i, j) \/ OpUpdate(i, j)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What can be observed of a dictionary in each state: the whole read-side
   interface through every form.                                            *)
(* the set of all variables of the universe, as elements, by name (KeySet) *)
ElemsOf(e) == IF IsVec(e) THEN {[e |-> e, i |-> i] : i \in Idx(e)} ELSE {[e |-> e, i |-> 0]}
KeySetByName ==
    {[n |-> n, hits |-> UNION {ElemsOf(e) : e \in Denotes(n)}
                        \union {[e |-> x[1], i |-> x[2]] : x \in DenotesElem(n)}]
      : n \in AllNames \union ElemNames \union {"nosuchname"}}
EmitKeySet == PrintT("@@" \o ToJson([keyset |-> KeySetByName]))
ASSUME EmitKeySet

Lookup(m, S) == {[e |-> e, c |-> m[e]] : e \in S}
Obs(m) ==
  [ keys |-> Present(m),
    elem |-> {[e |-> x[1], i |-> x[2], in |-> m[x[1]] # Absent /\ m[x[1]][x[2]] # "nan",
               v |-> IF m[x[1]] = Absent THEN "KeyError" ELSE m[x[1]][x[2]]]
              : x \in {y \in Ent \X (1..9) : IsVec(y[1]) /\ y[2] \in Idx(y[1])}},
    names |-> {[n |-> n,
                amb |-> U.subs /\ Ambiguous(n),
                hits |-> Lookup(m, IF U.subs THEN Denotes(n) \intersect Present(m) ELSE Hits(m, n))]
               : n \in AllNames \union {"nosuchname"}},
    map |-> Lookup(m, Present(m)) ]

-----------------------------------------------------------------------------
(* Invariants of the model itself *)
TypeOK == \A i \in D, e \in Ent : d[i][e] = Absent \/ d[i][e] \in Content(e)
NoEmptyVector == \A i \in D, e \in Ent : IsVec(e) /\ d[i][e] # Absent => \E j \in Idx(e) : d[i][e][j] # "nan"
\* an operation on one dictionary changes no other
Isolation == [][\A i \in D : (act'.op # "setshared" /\ act'.d # i) => d'[i] = d[i]]_vars
\* a failing operation changes nothing
FailNoChange == [][act'.r # "ok" => d' = d]_vars
\* a removed name is gone under every form
DeleteRemoves == [][act'.op = "delname" => Hits(d'[act'.d], act'.n) = {}]_vars

EmitTransition == PrintT("@@" \o ToJson([from |-> d, act |-> act', to |-> d']))
EmitState == PrintT("@@" \o ToJson([state |-> d, obs |-> [i \in D |-> Obs(d[i])]]))
=============================================================================
