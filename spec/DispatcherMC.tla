----------------------------- MODULE DispatcherMC -----------------------------
(* All histories of MaxOps operations; prints them for the replay. *)
EXTENDS Dispatcher, TLC, Json
CONSTANTS MaxOps, Ls, Emit
VARIABLES kind, s, hist, log, n
vars == <<kind, s, hist, log, n>>
Ops == { [op |-> "add", x |-> l, own |-> 1] : l \in 1..Ls } \cup { [op |-> "remove", x |-> l, own |-> 1] : l \in 1..Ls }
       \cup { [op |-> "dispatch", x |-> n, own |-> o] : o \in {0, 1} } \cup { [op |-> "process", x |-> 0, own |-> 1] }
Init == kind \in {"plain", "safe", "same"} /\ s = Start /\ hist = <<>> /\ log = <<>> /\ n = 1
Next == \E op \in Ops : /\ n <= MaxOps /\ n' = n + 1
                        /\ ~(op.op = "add" /\ Has(s, op.x))
                        /\ ~(op.op = "process" /\ kind = "plain")
                        /\ s' = After(kind, s, op) /\ log' = log \o Out(kind, s, op)
                        /\ hist' = Append(hist, op) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
Registered(l, k) == \* registered after k operations
    LET a == {i \in 1..k : hist[i].op = "add" /\ hist[i].x = l}
        r == {i \in 1..k : hist[i].op = "remove" /\ hist[i].x = l}
    IN  \E i \in a : \A j \in r : j < i
OncePerListener == \A i, j \in 1..Len(log) : i # j => log[i] # log[j]
InOrder == \A i, j \in 1..Len(log) : i < j => log[i][2] <= log[j][2]
PlainIsImmediate == kind = "plain" =>
    \A i \in 1..Len(hist) : hist[i].op = "dispatch" =>
        \A l \in 1..Ls : Registered(l, i) <=> \E k \in 1..Len(log) : log[k] = <<l, hist[i].x>>
NothingPending == s.q # <<>> => kind # "plain"
Dump == (Emit /\ n > MaxOps) => PrintT(<<"HIST", ToJson([kind |-> kind, ops |-> hist])>>)
=============================================================================
