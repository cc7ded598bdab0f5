----------------------------- MODULE SolTrace -----------------------------
(* Validates recorded histories of solutions: registers hold solutions (the
   numbers of their contents); only the operations that say so add registers,
   and nothing ever changes one, the model, or how variables are printed.    *)
EXTENDS Sol, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, regs, info, memo, bad
vars == <<tid, l, regs, info, memo, bad>>
T == Traces[tid]
Ent(c) == T.conts[c].ent
\* the entries, without what tables show of them
Core(e) == [d |-> e.d, n |-> e.n, ksh |-> e.ksh, sh |-> e.sh, v |-> e.v, u |-> e.u, m |-> e.m, lab |-> e.lab, label |-> e.label, ku |-> e.ku]
Cores(ent) == {Core(ent[k]) : k \in 1..Len(ent)}
SameEnt(a, b) == Len(a) = Len(b) /\ Cores(a) = Cores(b)
\* info[r]: [base: the register it is a copy of, pt: 0 or the point of it, ch: changes made to it]
Fresh(r) == [base |-> r, pt |-> 0, ch |-> <<>>]
Same(e) == IF Len(e.regs) # Len(regs) THEN "registers" ELSE IF e.regs # regs THEN "a solution was changed" ELSE "ok"
Grown(e) == IF Len(e.regs) # Len(regs) + 1 THEN "registers" ELSE IF SubSeq(e.regs, 1, Len(regs)) # regs THEN "a solution was changed" ELSE "ok"
New(e) == e.regs[Len(e.regs)]
First(a, b) == IF a # "ok" THEN a ELSE b
Needs(b, msg) == IF b THEN "ok" ELSE msg
\* equal questions about equal solutions have equal answers
Answers(q, h) == \A k \in 1..Len(memo) : memo[k].q = q => memo[k].h = h

\* -- comparisons: copies of one solution differ by the changes made to them
Percent == [x \in {"3/2", "2", "1/2"} |-> IF x = "3/2" THEN <<"+50.0%", "-33.3%">> ELSE IF x = "2" THEN <<"+100.0%", "-50.0%">> ELSE <<"-50.0%", "+100.0%">>]
Far(ch) == ch.f # "10001/10000"
Related(a, b) == info[a].base = info[b].base /\ info[a].pt = info[b].pt
Diffs(a, b) == IF info[a].ch = info[b].ch THEN <<>>
               ELSE info[a].ch \o info[b].ch
Alike(a, b) ==                                  \* "yes", "no" or "any"
    IF ~Related(a, b) THEN "any"
    ELSE IF info[a].ch # <<>> /\ info[b].ch # <<>> /\ info[a].ch # info[b].ch THEN "any"
    ELSE IF \E k \in 1..Len(Diffs(a, b)) : Far(Diffs(a, b)[k]) THEN (IF Len(Diffs(a, b)) = 1 THEN "no" ELSE "any")
    ELSE "yes"

\* -- tables
Shown(e, ent) == {k \in 1..Len(ent) :
    /\ ent[k].d = e.t /\ ent[k].isvk /\ (e.kind = "mat" \/ ~ent[k].zero)
    /\ (e.only # <<>> => ent[k].n \in ToSet(e.only))
    /\ (e.inc # <<>> /\ ~e.one => ent[k].m \in ToSet(e.inc) \cup {""})
    /\ (e.exc # <<>> /\ ~e.one => ent[k].m \notin ToSet(e.exc))}
RowOf(e, en) == [m |-> IF e.one THEN "" ELSE en.m, bare |-> en.lab, v |-> IF e.kind = "mat" THEN en.f5 ELSE en.tab]
Count(x, s) == Cardinality({k \in 1..Len(s) : s[k] = x})
RowsBad(e, ent) ==
    LET want == TLCEval([k \in 1..Cardinality(Shown(e, ent)) |-> RowOf(e, ent[SetToSortSeq(Shown(e, ent), <)[k]])])
        got == TLCEval([k \in 1..Len(e.rows) |-> [m |-> e.rows[k].m, bare |-> e.rows[k].bare, v |-> e.rows[k].v]])
    IN IF e.kind = "mat"
       THEN First(Needs(Len(want) = Len(got), "not every variable is saved"),
                  Needs(\A k \in 1..Len(want) : Count(want[k].v, [j \in 1..Len(want) |-> want[j].v]) = Count(want[k].v, [j \in 1..Len(got) |-> got[j].v]), "other values are saved"))
       ELSE First(Needs(Len(want) = Len(got), "other variables are shown than held"),
            First(Needs(\A k \in 1..Len(want) : Count(want[k], want) = Count(want[k], got), "other values are shown than held"),
                  Needs(\A j, k \in 1..Len(e.rows) : j # k => e.rows[j].m # e.rows[k].m \/ e.rows[j].lab # e.rows[k].lab, "two variables are shown with the same name")))

Verdict(e) ==
    CASE e.x # "" -> "raised " \o e.x
      [] e.op = "base" -> Grown(e)
      [] e.op = "show" -> First(Same(e), Needs(Answers(<<e.q, regs[e.r]>>, e.h), "equal solutions are shown differently"))
      [] e.op = "rows" -> First(Same(e), RowsBad(e, Ent(regs[e.r])))
      [] e.op = "get" -> First(Same(e),
            LET ks == Find(Ent(regs[e.r]), e.d, e.n) IN
            IF \E k \in ks : Element(Ent(regs[e.r])[k], e.pos) = [sh |-> e.sh, v |-> e.v] THEN "ok" ELSE "another value than held")
      [] e.op = "eval" -> First(Same(e),
            IF info[e.r].pt = 0 THEN Needs(Answers(<<e.q, info[e.r].base>>, e.v), "equal solutions give different values")
            ELSE Needs(\A k \in 1..Len(memo) : memo[k].q = <<e.q, info[e.r].base>> => IF Len(memo[k].h) = 1 THEN memo[k].h = e.v ELSE e.v = <<memo[k].h[info[e.r].pt]>>, "a point gives another value than the sweep"))
      [] e.op = "load" -> First(Grown(e),
            IF e.kind \in {"bare", "barepgz"}
            THEN Needs(T.conts[New(e)].ms = T.conts[regs[e.r]].ms /\ Ent(New(e)) = Bare(Ent(regs[e.r])), "loaded without constraints: not equal to what was saved")
            ELSE Needs(New(e) = regs[e.r], "loaded (" \o e.kind \o "): not equal to what was saved"))
      [] e.op = "at" -> First(Grown(e),
            First(Needs(T.conts[New(e)].n = 0 \/ T.conts[regs[e.r]].n = 0, "a point that is a sweep"),
                  Needs(SameEnt(Ent(New(e)), Point(Ent(regs[e.r]), e.i)), "the point of a sweep is not what the sweep holds there")))
      [] e.op = "perturb" -> Grown(e)
      [] e.op = "ae" -> First(Same(e),
            CASE Alike(e.r, e.b) = "yes" -> Needs(e.res, "equal solutions are not almost equal")
              [] Alike(e.r, e.b) = "no" -> Needs(~e.res, "different solutions are almost equal")
              [] OTHER -> "ok")
      [] e.op = "diff" -> First(Same(e),
            First(Needs(Answers(<<e.q, regs[e.r], regs[e.b]>>, e.h), "equal solutions are compared differently"),
                  IF e.sel \/ ~Related(e.r, e.b) \/ (info[e.r].ch # <<>> /\ info[e.b].ch # <<>>) THEN "ok"
                  ELSE LET vs == SelectSeq(Diffs(e.r, e.b), LAMBDA c : c.d = "variables" /\ Far(c)) IN
                       IF regs[e.r] = regs[e.b] THEN Needs(e.zero /\ e.shown = <<>>, "differences between equal solutions")
                       ELSE IF Len(vs) = 1 /\ Len(Diffs(e.r, e.b)) = 1
                            THEN Needs(ToSet(e.shown) = {Percent[vs[1].f][IF info[e.r].ch # <<>> THEN 1 ELSE 2]}, "other differences than there are")
                       ELSE "ok"))
      [] e.op = "again" -> IF Len(e.regs) = Len(regs) THEN First(Same(e), Needs(Timeless(Ent(e.c)) = Timeless(Ent(1)), "solving again gives another solution"))
                           ELSE First(Grown(e), Needs(Timeless(Ent(e.c)) = Timeless(Ent(1)), "solving again gives another solution"))
      [] e.op = "other" -> First(Same(e),
            First(Needs(e.c = e.of, "loaded in another process: not equal to what was saved"),
            First(Needs(\A k \in 1..Len(e.rb) : e.rb[k], "loaded in another process: its posynomials equal no others"),
            First(Needs(Answers(<<"table{}", e.c>>, e.table), "loaded in another process: shown differently"),
                  Needs(Answers(<<"summary{}", e.c>>, e.summary), "loaded in another process: summarised differently")))))
Remember(e) == CASE e.op = "show" -> Append(memo, [q |-> <<e.q, regs[e.r]>>, h |-> e.h])
                 [] e.op = "eval" /\ info[e.r].pt = 0 -> Append(memo, [q |-> <<e.q, info[e.r].base>>, h |-> e.v])
                 [] e.op = "diff" -> Append(memo, [q |-> <<e.q, regs[e.r], regs[e.b]>>, h |-> e.h])
                 [] OTHER -> memo
Infos(e) == CASE e.op \in {"base", "again"} /\ Len(e.regs) > Len(regs) -> Append(info, Fresh(Len(regs) + 1))
              [] e.op = "load" -> Append(info, IF e.kind \in {"bare", "barepgz"} THEN Fresh(Len(regs) + 1) ELSE info[e.r])
              [] e.op = "at" -> Append(info, [info[e.r] EXCEPT !.pt = IF @ = 0 /\ T.conts[regs[e.r]].n > 0 THEN e.i ELSE @, !.base = IF info[e.r].ch = <<>> THEN @ ELSE Len(regs) + 1, !.ch = <<>>])
              [] e.op = "perturb" -> Append(info, [info[e.r] EXCEPT !.ch = Append(@, [d |-> e.d, n |-> e.n, pos |-> e.pos, f |-> e.f])])
              [] OTHER -> info
Init == tid \in 1..Len(Traces) /\ l = 1 /\ regs = <<>> /\ info = <<>> /\ memo = <<>> /\ bad = ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               v0 == TLCEval(Verdict(e))
               v == IF v0 = "ok" /\ e.mt # T.ev[1].mt THEN "the model, or how it is printed, has changed" ELSE v0
           IN /\ bad' = (IF v = "ok" THEN "" ELSE v)
              /\ IF v # "ok" THEN PrintT(<<"REJECT", tid, l, v>>) ELSE TRUE
              /\ IF v = "ok" THEN regs' = e.regs /\ info' = TLCEval(Infos(e)) /\ memo' = TLCEval(Remember(e))
                 ELSE UNCHANGED <<regs, info, memo>>
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
