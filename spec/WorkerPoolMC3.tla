---- MODULE WorkerPoolMC3 ----
EXTENDS WorkerPool
Prog == <<[k |-> "pass", n |-> 3, p |-> 1], [k |-> "pass", n |-> 2, p |-> 1]>>
====
