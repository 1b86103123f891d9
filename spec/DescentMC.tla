------------------------------ MODULE DescentMC ------------------------------
(* Gradient descent as specified, with a callback that may stop at any time. *)
EXTENDS Descent
CONSTANT MaxIt
VARIABLES o, ls, x, it, running, reported
vars == <<o, ls, x, it, running, reported>>
N(n) == RFrac(n, 2)
Objs == { [A |-> <<<<N(a), N(c)>>, <<N(c), N(b)>>>>, b |-> <<N(e), N(1)>>, q |-> N(q), s |-> N(s)] :
          a, b \in {1, 6}, c \in {0, 1}, e \in {-3, 2}, q \in {0, 1}, s \in {0, 1} }
Searches == { [kind |-> "armijo", beta |-> bb, tau |-> t] : bb \in {RDec(1, -3), RFrac(1, 2)}, t \in {RFrac(1, 2), RFrac(9, 10)} }
            \cup { [kind |-> "constant", a |-> RFrac(1, 10)] }
Init == /\ o \in Objs /\ ls \in Searches /\ x \in {<<N(i), N(j)>> : i, j \in {-4, 0, 3}}
        /\ it = 0 /\ running = TRUE /\ reported = <<>>
Report == running /\ Len(reported) = it /\ it <= MaxIt
          /\ reported' = Append(reported, F(o, x))
          /\ running' \in (IF it < MaxIt THEN {TRUE, FALSE} ELSE {FALSE})
          /\ UNCHANGED <<o, ls, x, it>>
Step == running /\ Len(reported) = it + 1 /\ x' = LineStep(o, ls, x, DF(o, x), DF(o, x)) /\ it' = it + 1
        /\ UNCHANGED <<o, ls, running, reported>>
Next == Report \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bound == it <= MaxIt
(* Armijo: every value reported is at most the one before *)
Monotone == ls.kind = "armijo" => \A i \in 1..Len(reported) - 1 : RLe(reported[i + 1], reported[i])
ValueOfCurrent == (Len(reported) = it + 1) => reported[it + 1] = F(o, x)
Stops == <>(~running)
=============================================================================
