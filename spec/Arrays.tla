------------------------------- MODULE Arrays -------------------------------
(* Arrays of things, as numpy understands them: [sh |-> shape, el |-> elements
   in row-major order].                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE sh[1] * Size(Tail(sh))
\* zero-based position <-> multi-index
RECURSIVE Unravel(_, _)
Unravel(k, sh) == IF sh = <<>> THEN <<>> ELSE <<k \div Size(Tail(sh))>> \o Unravel(k % Size(Tail(sh)), Tail(sh))
RECURSIVE Ravel(_, _)
Ravel(ix, sh) == IF sh = <<>> THEN 0 ELSE ix[1] * Size(Tail(sh)) + Ravel(Tail(ix), Tail(sh))
AtIx(a, ix) == a.el[Ravel(ix, a.sh) + 1]
MakeArr(sh, F(_)) == [sh |-> sh, el |-> [k \in 1..Size(sh) |-> F(Unravel(k - 1, sh))]]
Scalar(x) == [sh |-> <<>>, el |-> <<x>>]

PadTo(sh, n) == [i \in 1..n |-> IF i <= n - Len(sh) THEN 1 ELSE sh[i - (n - Len(sh))]]
MaxLen(s, t) == IF Len(s) > Len(t) THEN Len(s) ELSE Len(t)
CanBroadcast(s, t) == LET n == MaxLen(s, t)  a == PadTo(s, n)  b == PadTo(t, n)
                      IN \A i \in 1..n : a[i] = b[i] \/ a[i] = 1 \/ b[i] = 1
Broadcast(s, t) == LET n == MaxLen(s, t)  a == PadTo(s, n)  b == PadTo(t, n)
                   IN [i \in 1..n |-> IF a[i] = 1 THEN b[i] ELSE a[i]]
Seen(a, ix) == LET off == Len(ix) - Len(a.sh)
               IN AtIx(a, [i \in 1..Len(a.sh) |-> IF a.sh[i] = 1 THEN 0 ELSE ix[i + off]])
ZipArr(a, b, F(_, _)) == MakeArr(Broadcast(a.sh, b.sh), LAMBDA ix : F(Seen(a, ix), Seen(b, ix)))
Each(a, F(_)) == [sh |-> a.sh, el |-> [k \in 1..Len(a.el) |-> F(a.el[k])]]

Transpose(a) == MakeArr([i \in 1..Len(a.sh) |-> a.sh[Len(a.sh) + 1 - i]], LAMBDA ix : AtIx(a, [i \in 1..Len(ix) |-> ix[Len(ix) + 1 - i]]))
Flatten(a) == [sh |-> <<Len(a.el)>>, el |-> a.el]
Outer(a, b, F(_, _)) == MakeArr(<<Len(a.el), Len(b.el)>>, LAMBDA ix : F(a.el[ix[1] + 1], b.el[ix[2] + 1]))
DropAxis(s, ax) == [i \in 1..(Len(s) - 1) |-> IF i < ax THEN s[i] ELSE s[i + 1]]
PutAxis(s, ax, v) == [i \in 1..(Len(s) + 1) |-> IF i < ax THEN s[i] ELSE IF i = ax THEN v ELSE s[i - 1]]
\* all elements along axis ax, in order, for each position of the others; F combines a sequence
OverAxis(a, ax, F(_)) == MakeArr(DropAxis(a.sh, ax), LAMBDA ix : F([j \in 1..a.sh[ax] |-> AtIx(a, PutAxis(ix, ax, j - 1))]))
Dot1(a, b, MulAdd(_)) == MulAdd([j \in 1..Len(a.el) |-> <<a.el[j], b.el[j]>>])

(* indexing: a sequence of [k |-> "int", i] and [k |-> "slice", lo, hi, st] (st # 0; hi exclusive) *)
Norm(i, n) == IF i < 0 THEN i + n ELSE i
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Clip(i, n) == Max2(0, Min2(n, Norm(i, n)))
SliceOf(s, n) == LET lo == Clip(s.lo, n)  hi == Clip(s.hi, n)  len == IF hi <= lo THEN 0 ELSE (hi - lo + s.st - 1) \div s.st
                 IN [j \in 1..len |-> lo + (j - 1) * s.st]
FullIx(ixs, sh) == [i \in 1..Len(sh) |-> IF i <= Len(ixs) THEN ixs[i] ELSE [k |-> "slice", i |-> 0, lo |-> 0, hi |-> sh[i], st |-> 1]]
Picks(ixs, sh) == [i \in 1..Len(sh) |-> IF ixs[i].k = "int" THEN <<Norm(ixs[i].i, sh[i])>> ELSE SliceOf(ixs[i], sh[i])]
IxOk(ixs, sh) == /\ Len(ixs) <= Len(sh)
                 /\ \A i \in 1..Len(ixs) : ixs[i].k = "int" => (Norm(ixs[i].i, sh[i]) >= 0 /\ Norm(ixs[i].i, sh[i]) < sh[i])
Index(a, ixs) ==
    LET f == FullIx(ixs, a.sh)
        pk == Picks(f, a.sh)
        kept == SelectSeq([i \in 1..Len(a.sh) |-> i], LAMBDA i : f[i].k = "slice")
        sh == [j \in 1..Len(kept) |-> Len(pk[kept[j]])]
        src(ix) == [i \in 1..Len(a.sh) |-> IF f[i].k = "int" THEN pk[i][1]
                                           ELSE pk[i][ix[CHOOSE j \in 1..Len(kept) : kept[j] = i] + 1]]
    IN MakeArr(sh, LAMBDA ix : AtIx(a, src(ix)))
=============================================================================
