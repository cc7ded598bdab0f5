------------------------------ MODULE SgpLoop ------------------------------
(* The loop of a sequential solve, under a solver that may return any cost or
   fail.  SessionTrace's Iterate follows it along a recorded run.            *)
EXTENDS Naturals, Sequences
CONSTANTS Limit, Costs, TolNum, TolDen, Errors
VARIABLES costs,      \* costs of the sub-problems solved so far
          prev,       \* <<cost>> to compare the next one with, or <<>>
          rises, status
vars == <<costs, prev, rises, status>>
Init == costs = <<>> /\ prev = <<>> /\ rises = 0 /\ status = "running"
Met(p, c) == (p - c) * TolDen <= TolNum * (p + c)
Solved(c) ==
    /\ status = "running" /\ Len(costs) < Limit
    /\ costs' = Append(costs, c)
    /\ IF prev = <<>> THEN prev' = <<c>> /\ UNCHANGED <<rises, status>>
       ELSE IF c > prev[1] THEN prev' = <<>> /\ rises' = rises + 1 /\ UNCHANGED status
       ELSE IF Met(prev[1], c) THEN status' = "converged" /\ UNCHANGED <<prev, rises>>
       ELSE prev' = <<c>> /\ UNCHANGED <<rises, status>>
Failed(x) == status = "running" /\ Len(costs) < Limit /\ status' = x /\ UNCHANGED <<costs, prev, rises>>
OutOfTurns == status = "running" /\ Len(costs) = Limit /\ status' = "limit" /\ UNCHANGED <<costs, prev, rises>>
Next == (\E c \in Costs : Solved(c)) \/ (\E x \in Errors : Failed(x)) \/ OutOfTurns
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
N == Len(costs)
WithinLimit == N <= Limit
\* the answer is the last cost; it is not above the one before it, and as close as asked for
Converged == status = "converged" => N >= 2 /\ costs[N] <= costs[N-1] /\ Met(costs[N-1], costs[N])
\* it was reached at the first opportunity
First == status = "converged" => \A k \in 2..(N-1) : costs[k] <= costs[k-1] /\ Met(costs[k-1], costs[k]) => k > 2 /\ costs[k-1] > costs[k-2]
\* every rise is reported, save those right after one
Rises == rises <= N \div 2 /\ (rises = 0 => \A k \in 2..N : costs[k] <= costs[k-1])
LimitHonest == status = "limit" => N = Limit
Ends == <>(status # "running")
=============================================================================
