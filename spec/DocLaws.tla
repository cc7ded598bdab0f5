------------------------------- MODULE DocLaws -------------------------------
(* The reading machine against a definition that looks at whole blocks, and the
   closure of limited sides against the directions in which points can escape. *)
EXTENDS Doc
CONSTANT MAXLEN
L0 == [op |-> "", what |-> "", n |-> 0, name |-> "x", val |-> "", vs |-> 0, units |-> "m", label |-> "", bad |-> "", ents |-> <<>>, ment |-> FALSE]
Alphabet == {[L0 EXCEPT !.op = "head", !.what = "variables"], [L0 EXCEPT !.op = "head", !.what = "constants"],
             [L0 EXCEPT !.op = "head", !.what = "upper", !.ment = TRUE], [L0 EXCEPT !.op = "decl"], [L0 EXCEPT !.op = "decl", !.bad = "fields"],
             [L0 EXCEPT !.op = "blank"], [L0 EXCEPT !.op = "text"], [L0 EXCEPT !.op = "names", !.ents = <<[name |-> "x", cond |-> "", neg |-> FALSE]>>]}
VARIABLES lines, st, law
lvars == <<lines, st, law>>
\* headings that count: not under another one
BlankIn(q, i, j) == \E k \in i..j : k > 0 /\ k <= Len(q) /\ q[k].op = "blank"
RECURSIVE Opens(_, _)
Under(q, h, j) == j = h + 1 \/ (j > h + 1 /\ ~BlankIn(q, h + 2, j))
Opens(q, j) == q[j].op = "head" /\ ~\E h \in 1..(j - 1) : Opens(q, h) /\ Under(q, h, j)
Content(q, h) == {j \in (h + 2)..Len(q) : ~BlankIn(q, h + 2, j)}
Sections(q) == {h \in 1..Len(q) : Opens(q, h)}
InDecl(q) == TLCEval({j \in 1..Len(q) : \E h \in Sections(q) : Declaring(q[h].what) /\ j \in Content(q, h)})
Good(q, j) == q[j].op = "decl" /\ q[j].bad = ""
Consts(q) == {j \in 1..Len(q) : \E h \in Sections(q) : q[h].what = "constants" /\ j \in Content(q, h)}
DocLaw == LET q == lines  D == {j \in InDecl(q) : Good(q, j)}  S == SetToSortSeq(D, <) IN
          /\ [k \in 1..Len(st.decl) |-> st.decl[k].const] = [k \in 1..Len(S) |-> S[k] \in Consts(q)]
          /\ st.clerr = (\E j \in InDecl(q) : ~Good(q, j))
          /\ Len(st.up) = Cardinality({j \in 1..Len(q) : q[j].op = "names" /\ \E h \in Sections(q) : q[h].what = "upper" /\ j \in Content(q, h)})
          /\ st = Read(Start, q)

(* directions d of escape along all equalities E that no limited side stops *)
Dirs == [1..NV -> -1..1]
Moves(d) == {Side(i, d[i] > 0) : i \in {j \in 1..NV : d[j] # 0}}
Along(e, d) == FoldSet(LAMBDA i, acc : acc + e[i] * d[i], 0, 1..NV) = 0
Free(E, B) == UNION {Moves(d) : d \in {x \in Dirs : (\A e \in E : Along(e, x)) /\ Moves(x) \cap B = {}}}
SidesAll == (1..NV) \X {"upper", "lower"}
ClosureLaw(E, B) == LET C == Closure(E, B) IN
    /\ B \subseteq C /\ Closure(E, C) = C
    /\ C \cap Free(E, B) = {}                                      \* what is limited cannot escape
    /\ Cardinality(E) = 1 => C \cup Free(E, B) = SidesAll         \* and with one equality, all else can
Init == \/ lines = <<>> /\ st = Start /\ law = <<>>
        \/ \E e, f \in {x \in [1..NV -> -1..1] : \E i \in 1..NV : x[i] # 0} : \E B \in SUBSET SidesAll :
              lines = <<>> /\ st = Start /\ law = <<{e, f}, B>>
Next == /\ law = <<>> /\ Len(lines) < MAXLEN
        /\ \E e \in Alphabet : lines' = Append(lines, e) /\ st' = Step(st, e)
        /\ UNCHANGED law
Spec == Init /\ [][Next]_lvars
Laws == IF law = <<>> THEN DocLaw ELSE ClosureLaw(law[1], law[2])
=============================================================================
