------------------------------ MODULE ExprLaws ------------------------------
(* The laws of the specification's arrays and units: checked for all small
   arrays (elements are distinct numbers) and all small unit products.       *)
EXTENDS Units, Arrays
VARIABLES sh, u1, u2
Shapes == {<<>>, <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 1, 2>>, <<2, 2, 2>>}
Names == {"inch", "foot", "yard", "minute", "percent", "kiloUSD"}
UExprs == {<<>>} \cup {<<[u |-> a, n |-> n, k |-> 1]>> : a \in Names, n \in {1, -1}} \cup {<<[u |-> a, n |-> 2, k |-> 1]>> : a \in {"inch", "yard", "centimeter"}}
Init == sh \in Shapes /\ u1 = <<>> /\ u2 = <<>>
Next == sh = <<>> /\ u1 = <<>> /\ u2 = <<>> /\ u1' \in UExprs /\ u2' \in UExprs /\ UNCHANGED sh
A(s) == [sh |-> s, el |-> [k \in 1..Size(s) |-> k]]
SumOf(a) == FoldLeft(LAMBDA x, y : x + y, 0, a.el)
Add2(x, y) == x + 10 * y
RavelLaws == LET s == sh IN
    /\ \A k \in 0..(Size(s) - 1) : Ravel(Unravel(k, s), s) = k
    /\ MakeArr(s, LAMBDA ix : AtIx(A(s), ix)) = A(s)
    /\ Transpose(Transpose(A(s))) = A(s)
    /\ Transpose(A(s)).sh = Reverse(s)
    /\ Flatten(A(s)).el = A(s).el
    /\ \A ax \in 1..Len(s) : LET r == OverAxis(A(s), ax, LAMBDA q : FoldLeft(LAMBDA x, y : x + y, 0, q))
                             IN /\ SumOf(r) = SumOf(A(s))
                                /\ Len(r.sh) = Len(s) - 1
    /\ Index(A(s), <<>>) = A(s)
    /\ (Len(s) > 0 => \A i \in (-s[1])..(s[1] - 1) :
           Index(A(s), <<[k |-> "int", i |-> i, lo |-> 0, hi |-> 0, st |-> 1]>>) =
           Index(A(s), <<[k |-> "int", i |-> Norm(i, s[1]), lo |-> 0, hi |-> 0, st |-> 1]>>))
    /\ \A t \in Shapes : /\ CanBroadcast(s, t) = CanBroadcast(t, s)
                         /\ CanBroadcast(s, t) => /\ Broadcast(s, t) = Broadcast(t, s)
                                                  /\ ZipArr(A(s), A(t), Add2) = ZipArr(A(t), A(s), LAMBDA x, y : Add2(y, x))
                         /\ SumOf(Outer(A(s), A(t), LAMBDA x, y : x * y)) = SumOf(A(s)) * SumOf(A(t))
X(i, u) == Q(PScale(PVar(i), UScale(Imperial, u)), UDim(Imperial, u))
UnitLaws ==
    /\ UScale(Imperial, u1 \o u2) = RMul(UScale(Imperial, u1), UScale(Imperial, u2))
    /\ UDim(Imperial, u1 \o u2) = UDim(Imperial, u2 \o u1)
    /\ QAdd(X(1, u1), X(2, u2), FALSE) = QAdd(X(2, u2), X(1, u1), FALSE)
    /\ (QAdd(X(1, u1), X(2, u2), FALSE).t = "ok") = (UDim(Imperial, u1) = UDim(Imperial, u2))
    /\ QMul(X(1, u1), X(2, u2), FALSE) = QMul(X(2, u2), X(1, u1), FALSE)
    /\ LET d == QDiv(X(1, u1), X(2, u2), FALSE) IN d.t = "ok" /\ QMul(d.v, X(2, u2), FALSE).v = X(1, u1)
    /\ LET s == QMul(X(1, u1), X(1, u1), FALSE) IN s = QPow(X(1, u1), 2, 1, FALSE)
    \* d(p*x)/dx = p for p free of x, whatever the units
    /\ LET m == QMul(X(1, u1), X(2, u2), FALSE) IN QDiff(m.v, 2, UScale(Imperial, u2), UDim(Imperial, u2), FALSE).v = X(1, u1)
=============================================================================
