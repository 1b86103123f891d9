---- MODULE WorkerPoolMC ----
EXTENDS WorkerPool
Prog == <<[k |-> "pass", n |-> 2, p |-> 1], [k |-> "transform", n |-> 2, p |-> 0]>>
====
