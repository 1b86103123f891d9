---------------------------- MODULE DispatcherImpl ----------------------------
(***************************************************************************)
(* The thread safe dispatcher at the level of its critical sections: any   *)
(* number of dispatching threads, a thread that adds, removes and re-adds  *)
(* a listener, and the processing thread, which in one process call        *)
(*   drops removed listeners | takes the events | copies the listeners |   *)
(*   calls them one by one.                                                *)
(* Shows that this gives the guarantees the traces are judged by           *)
(* (DispatcherConc).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Producers, PerThread, Rounds
VARIABLES listeners, deleted, queue,     \* shared
          done,                          \* events dispatched by each producer
          apc,                           \* progress of the registering thread
          mpc, evs, ls, round,           \* the processing thread
          log,                           \* deliveries so far
          apc0, evAtBegin
vars == <<listeners, deleted, queue, done, apc, mpc, evs, ls, round, log, apc0, evAtBegin>>
Perm == 0      \* always registered
Ext  == 1      \* added, removed, added again
Init == /\ listeners = <<Perm>> /\ deleted = {} /\ queue = <<>>
        /\ done = [p \in Producers |-> 0] /\ apc = "add1"
        /\ mpc = "idle" /\ evs = <<>> /\ ls = <<>> /\ round = 0 /\ log = <<>>
        /\ apc0 = apc /\ evAtBegin = {}
Dispatch(p) == /\ done[p] < PerThread
               /\ done' = [done EXCEPT ![p] = @ + 1] /\ queue' = Append(queue, <<p, done[p] + 1>>)
               /\ UNCHANGED <<listeners, deleted, apc, mpc, evs, ls, round, log, apc0, evAtBegin>>
Without(s, l) == SelectSeq(s, LAMBDA m : m # l)
Registrar == /\ \/ apc = "add1" /\ listeners' = Append(listeners, Ext) /\ UNCHANGED deleted /\ apc' = "rem"
                \/ apc = "rem" /\ deleted' = deleted \cup {Ext} /\ UNCHANGED listeners /\ apc' = "add2"
                \/ /\ apc = "add2" /\ apc' = "done" /\ deleted' = deleted \ {Ext}
                   /\ listeners' = Append(IF Ext \in deleted THEN Without(listeners, Ext) ELSE listeners, Ext)
             /\ UNCHANGED <<queue, done, mpc, evs, ls, round, log, apc0, evAtBegin>>
Out == apc \in {"add1", "add2"}
Main == \/ /\ mpc = "idle" /\ round < Rounds /\ mpc' = "drop" /\ round' = round + 1
           /\ apc0' = apc /\ evAtBegin' = {queue[i] : i \in 1..Len(queue)}
           /\ UNCHANGED <<listeners, deleted, queue, done, apc, evs, ls, log>>
        \/ /\ mpc = "drop" /\ mpc' = "take" /\ listeners' = SelectSeq(listeners, LAMBDA m : m \notin deleted) /\ deleted' = {}
           /\ UNCHANGED <<queue, done, apc, evs, ls, round, log, apc0, evAtBegin>>
        \/ /\ mpc = "take" /\ mpc' = "copy" /\ evs' = queue /\ queue' = <<>>
           /\ UNCHANGED <<listeners, deleted, done, apc, ls, round, log, apc0, evAtBegin>>
        \/ /\ mpc = "copy" /\ mpc' = "call" /\ ls' = listeners
           /\ UNCHANGED <<listeners, deleted, queue, done, apc, evs, round, log, apc0, evAtBegin>>
        \/ /\ mpc = "call"
           /\ IF evs = <<>> THEN mpc' = "idle" /\ UNCHANGED <<evs, log>>
              ELSE mpc' = "call" /\ evs' = Tail(evs) /\ log' = log \o [i \in 1..Len(ls) |-> [l |-> ls[i], e |-> Head(evs), r |-> round]]
           /\ UNCHANGED <<listeners, deleted, queue, done, apc, ls, round, apc0, evAtBegin>>
Next == Main \/ Registrar \/ \E p \in Producers : Dispatch(p)
Spec == Init /\ [][Next]_vars

PermLog == SelectSeq(log, LAMBDA r : r.l = Perm)
ExactlyOnce == \A i, j \in 1..Len(log) : i # j => <<log[i].l, log[i].e>> # <<log[j].l, log[j].e>>
ThreadOrder == \A i, j \in 1..Len(PermLog) :
    i < j /\ PermLog[i].e[1] = PermLog[j].e[1] => PermLog[i].e[2] < PermLog[j].e[2]
NothingLost == mpc = "idle" => \A e \in evAtBegin : \E i \in 1..Len(PermLog) : PermLog[i].e = e
ExtCalled(r) == \E i \in 1..Len(log) : log[i].r = r /\ log[i].l = Ext
PermCalled(r) == \E i \in 1..Len(log) : log[i].r = r /\ log[i].l = Perm
(* out for the whole process call: not called; in for the whole call: called *)
Removed == [][(mpc = "call" /\ mpc' = "idle" /\ apc0 = apc) =>
    /\ Out => ~ExtCalled(round)
    /\ ~Out /\ PermCalled(round) => ExtCalled(round)]_vars
RegOrder == \A i \in 1..Len(log) - 1 : log[i].l = Ext => log[i + 1].l = Perm
Accounted == mpc = "idle" => \A p \in Producers : \A k \in 1..done[p] :
    \/ \E i \in 1..Len(queue) : queue[i] = <<p, k>>
    \/ \E i \in 1..Len(PermLog) : PermLog[i].e = <<p, k>>
=============================================================================
