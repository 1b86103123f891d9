------------------------------ MODULE WorkerPool ------------------------------
(***************************************************************************)
(* The implementation of LDA::fit/partial_fit/transform: a pool of worker  *)
(* threads that take documents from queue_in_, put results into queue_out_ *)
(* and notify the caller; the caller waits on a condition variable, lets   *)
(* the event dispatcher deliver what the workers queued, runs the          *)
(* per-document maximization, joins the pool and runs the batch steps.     *)
(* One action per critical section or call-out.  The variables of          *)
(* EpochProtocol are history variables here, updated by the effects XDo    *)
(* only; TLC checks that every step of this system is a step the protocol  *)
(* allows (PROPERTY Protocol) and that every call returns (Terminates).    *)
(* The variable sched records which thread moved; behaviours found by      *)
(* simulation are replayed as schedules against the real LDA object.       *)
(***************************************************************************)
EXTENDS EpochProtocol, Json

CONSTANTS W,          \* number of workers
          Program,    \* sequence of calls [k |-> kind, n |-> documents, p |-> passes]
          DocEvents,  \* whether the M step publishes an event per document
          Record      \* keep the schedule

VARIABLES pc, call, i,       \* the calling thread: control, current call, documents extracted
          qin, qout, olock,  \* queues and the owner of queue_out_mutex_ (-1: free)
          waiting,           \* the caller sleeps on queue_out_cv_
          evq, buf,          \* dispatcher: queued events, events being delivered <<listener, event>>
          ret,               \* where the caller continues after process_events
          cur,               \* the item the caller extracted
          pw, job,           \* workers: control and job
          mid,               \* sequence number of maximization events
          sched

wvars == <<pc, call, i, qin, qout, olock, waiting, evq, buf, ret, cur, pw, job, mid>>
Workers == 1..W
Op == Program[call]

Init == /\ AInit
        /\ pc = "call" /\ call = 1 /\ i = 0 /\ qin = <<>> /\ qout = <<>> /\ olock = -1
        /\ waiting = FALSE /\ evq = <<>> /\ buf = <<>> /\ ret = "" /\ cur = <<>>
        /\ pw = [w \in Workers |-> "none"] /\ job = [w \in Workers |-> 0]
        /\ mid = 0 /\ sched = <<>>

By(t) == sched' = IF Record THEN Append(sched, t) ELSE sched

-----------------------------------------------------------------------------
(* The calling thread *)
CallBegin == /\ pc = "call" /\ call <= Len(Program)
             /\ StartDo(Op.k, Op.n, Op.p, 0)
             /\ pc' = IF Op.k = "pass" /\ Op.p = 0 THEN "return" ELSE "enqueue"
             /\ UNCHANGED <<call, i, qin, qout, olock, waiting, evq, buf, ret, cur, pw, job, mid>>

(* shuffle and queue: any permutation may come out *)
Enqueue == /\ pc = "enqueue"
           /\ \E p \in Permutations(1..n) :
                 qin' = [x \in 1..n |-> IF kind = "pass" THEN p[x] ELSE x]
           /\ pc' = "spawn1"
           /\ UNCHANGED <<call, i, qout, olock, waiting, evq, buf, ret, cur, pw, job, mid, abs>>

Spawn == /\ pc = "spawn1"
         /\ LET w == CHOOSE w \in Workers : pw[w] = "none" /\ \A x \in Workers : pw[x] = "none" => w <= x
            IN /\ pw' = [pw EXCEPT ![w] = "take"]
               /\ pc' = IF w = W THEN (IF n = 0 THEN "join" ELSE "lock") ELSE "spawn1"
         /\ i' = 0
         /\ UNCHANGED <<call, qin, qout, olock, waiting, evq, buf, ret, cur, job, mid, abs>>

LockOut == /\ pc = "lock" /\ olock = -1 /\ olock' = Caller /\ pc' = "check"
           /\ UNCHANGED <<call, i, qin, qout, waiting, evq, buf, ret, cur, pw, job, mid, abs>>

(* extract_vp_from_queue: wait with the predicate "queue_out_ is not empty" *)
CheckWait == /\ pc = "check" /\ qout = <<>> /\ olock' = -1 /\ waiting' = TRUE /\ pc' = "asleep"
             /\ UNCHANGED <<call, i, qin, qout, evq, buf, ret, cur, pw, job, mid, abs>>
SpuriousWake == /\ pc = "asleep" /\ waiting /\ waiting' = FALSE
                /\ UNCHANGED <<pc, call, i, qin, qout, olock, evq, buf, ret, cur, pw, job, mid, abs>>
Relock == /\ pc = "asleep" /\ ~waiting /\ olock = -1 /\ olock' = Caller /\ pc' = "check"
          /\ UNCHANGED <<call, i, qin, qout, waiting, evq, buf, ret, cur, pw, job, mid, abs>>
CheckPop == /\ pc = "check" /\ qout # <<>> /\ cur' = Head(qout) /\ qout' = Tail(qout)
            /\ olock' = -1 /\ pc' = "process" /\ ret' = IF kind = "pass" THEN "mdoc" ELSE "column"
            /\ UNCHANGED <<call, i, qin, waiting, evq, buf, pw, job, mid, abs>>

(* process_events copies the queue under the lock, then calls the listeners *)
Expand(s) == [x \in 1..(Len(s) * NL) |-> <<((x - 1) % NL) + 1, s[((x - 1) \div NL) + 1]>>]
Process == /\ pc = "process" /\ buf' = Expand(evq) /\ evq' = <<>> /\ pc' = "deliver"
           /\ UNCHANGED <<call, i, qin, qout, olock, waiting, ret, cur, pw, job, mid, abs>>
DeliverOne == /\ pc = "deliver" /\ buf # <<>> /\ buf' = Tail(buf)
              /\ LET l == Head(buf)[1] e == Head(buf)[2]
                 IN IF e[1] = "Epoch" THEN EpochDo(l) ELSE DeliverDo(l, e)
              /\ UNCHANGED <<pc, call, i, qin, qout, olock, waiting, evq, ret, cur, pw, job, mid>>
Delivered == /\ pc = "deliver" /\ buf = <<>> /\ pc' = ret
             /\ UNCHANGED <<call, i, qin, qout, olock, waiting, evq, buf, ret, cur, pw, job, mid, abs>>

Done == i + 1 >= n
MDocCall == /\ pc = "mdoc" /\ MDocDo(cur[2]) /\ i' = i + 1
            /\ pc' = IF DocEvents THEN "mdocemit" ELSE IF Done THEN "join" ELSE "lock"
            /\ UNCHANGED <<call, qin, qout, olock, waiting, evq, buf, ret, cur, pw, job, mid>>
(* an event of the calling thread is queued and the queue processed at once *)
MEmitCall == /\ pc \in {"mdocemit", "mbatchemit"}
             /\ mid' = mid + 1 /\ MEmitDo(mid + 1) /\ evq' = Append(evq, <<"M", mid + 1>>)
             /\ ret' = IF pc = "mbatchemit" THEN "epoch" ELSE IF i >= n THEN "join" ELSE "lock"
             /\ pc' = "process"
             /\ UNCHANGED <<call, i, qin, qout, olock, waiting, buf, cur, pw, job>>
Column == /\ pc = "column" /\ ColDo(cur[2]) /\ i' = i + 1
          /\ pc' = IF Done THEN "join" ELSE "lock"
          /\ UNCHANGED <<call, qin, qout, olock, waiting, evq, buf, ret, cur, pw, job, mid>>

Join == /\ pc = "join" /\ \A w \in Workers : pw[w] = "done"
        /\ pw' = [w \in Workers |-> "none"]
        /\ pc' = IF kind = "pass" THEN "corpuse" ELSE "return"
        /\ UNCHANGED <<call, i, qin, qout, olock, waiting, evq, buf, ret, cur, job, mid, abs>>
CorpusECall == /\ pc = "corpuse" /\ CorpusEDo /\ pc' = "batchm"
               /\ UNCHANGED <<call, i, qin, qout, olock, waiting, evq, buf, ret, cur, pw, job, mid>>
BatchMCall == /\ pc = "batchm" /\ BatchMDo /\ pc' = "mbatchemit"
              /\ UNCHANGED <<call, i, qin, qout, olock, waiting, evq, buf, ret, cur, pw, job, mid>>
EpochDispatch == /\ pc = "epoch" /\ evq' = Append(evq, <<"Epoch", 0>>)
                 /\ pc' = "process" /\ ret' = IF passes > 1 THEN "enqueue" ELSE "return"
                 /\ UNCHANGED <<call, i, qin, qout, olock, waiting, buf, cur, pw, job, mid, abs>>
CallReturn == /\ pc = "return" /\ ReturnDo /\ call' = call + 1
              /\ pc' = IF call + 1 > Len(Program) THEN "finished" ELSE "call"
              /\ UNCHANGED <<i, qin, qout, olock, waiting, evq, buf, ret, cur, pw, job, mid>>

Main == By(0) /\ (CallBegin \/ Enqueue \/ Spawn \/ LockOut \/ CheckWait \/ Relock \/ CheckPop
                  \/ Process \/ DeliverOne \/ Delivered \/ MDocCall \/ MEmitCall \/ Column
                  \/ Join \/ CorpusECall \/ BatchMCall \/ EpochDispatch \/ CallReturn)

-----------------------------------------------------------------------------
(* The workers *)
Take(w) == /\ pw[w] = "take"
           /\ IF qin = <<>> THEN pw' = [pw EXCEPT ![w] = "done"] /\ UNCHANGED <<qin, job>>
              ELSE /\ job' = [job EXCEPT ![w] = Head(qin)] /\ qin' = Tail(qin)
                   /\ pw' = [pw EXCEPT ![w] = "begin"]
           /\ UNCHANGED <<pc, call, i, qout, olock, waiting, evq, buf, ret, cur, mid, abs>>
WBegin(w) == /\ pw[w] = "begin" /\ EBeginDo(job[w]) /\ pw' = [pw EXCEPT ![w] = "emit"]
             /\ UNCHANGED <<pc, call, i, qin, qout, olock, waiting, evq, buf, ret, cur, job, mid>>
WEmit(w) == /\ pw[w] = "emit" /\ EEmitDo(job[w]) /\ evq' = Append(evq, <<"E", job[w]>>)
            /\ pw' = [pw EXCEPT ![w] = "end"]
            /\ UNCHANGED <<pc, call, i, qin, qout, olock, waiting, buf, ret, cur, job, mid>>
WEnd(w) == /\ pw[w] = "end" /\ EEndDo(job[w], job[w]) /\ pw' = [pw EXCEPT ![w] = "put"]
           /\ UNCHANGED <<pc, call, i, qin, qout, olock, waiting, evq, buf, ret, cur, job, mid>>
Put(w) == /\ pw[w] = "put" /\ olock = -1 /\ qout' = Append(qout, <<job[w], job[w]>>)
          /\ pw' = [pw EXCEPT ![w] = "notify"]
          /\ UNCHANGED <<pc, call, i, qin, olock, waiting, evq, buf, ret, cur, job, mid, abs>>
Notify(w) == /\ pw[w] = "notify" /\ waiting' = FALSE /\ pw' = [pw EXCEPT ![w] = "take"]
             /\ UNCHANGED <<pc, call, i, qin, qout, olock, evq, buf, ret, cur, job, mid, abs>>
Worker(w) == By(w) /\ (Take(w) \/ WBegin(w) \/ WEmit(w) \/ WEnd(w) \/ Put(w) \/ Notify(w))

Next == Main \/ (SpuriousWake /\ UNCHANGED sched) \/ \E w \in Workers : Worker(w)
Spec == Init /\ [][Next]_<<abs, wvars, sched>>
(* strong fairness of the workers: a mutex that becomes free again and again  *)
(* is eventually obtained (spurious wake-ups may make the caller take it often) *)
FairSpec == Spec /\ WF_<<abs, wvars, sched>>(Main) /\ \A w \in Workers : SF_<<abs, wvars, sched>>(Worker(w))

(* Every step is one the protocol allows *)
StepOK ==
    \/ UNCHANGED abs
    \/ pc = "call" /\ StartOK
    \/ pc = "deliver" /\ buf # <<>> /\ (IF Head(buf)[2][1] = "Epoch" THEN EpochOK(Caller, Head(buf)[1], version)
                                        ELSE DeliverOK(Caller, Head(buf)[1], Head(buf)[2]))
    \/ pc = "mdoc" /\ MDocOK(Caller, cur[2], cur[1], Label(cur[2]))
    \/ pc \in {"mdocemit", "mbatchemit"}
    \/ pc = "column" /\ ColOK(cur[2], cur[2], cur[1])
    \/ pc = "corpuse" /\ CorpusEOK
    \/ pc = "batchm" /\ BatchMOK
    \/ pc = "return" /\ ReturnOK
    \/ \E w \in Workers : pw[w] = "begin" /\ pw'[w] = "emit" /\ EBeginOK(job[w], version, Label(job[w]))
    \/ \E w \in Workers : pw[w] = "emit" /\ pw'[w] = "end"
    \/ \E w \in Workers : pw[w] = "end" /\ pw'[w] = "put" /\ EEndOK(job[w], job[w], version)
StepsAllowed == [][StepOK]_<<abs, wvars, sched>>
Protocol == AbsSpec       \* refinement of the abstract system

Terminates == <>(pc = "finished")
NoLostWakeup == pc = "asleep" /\ waiting /\ (\A w \in Workers : pw[w] \in {"done", "take", "begin", "emit", "end"}) => qout = <<>>
EmptyAtEnd == pc = "finished" => qin = <<>> /\ qout = <<>> /\ evq = <<>> /\ olock = -1

(* Schedules for replay: printed when a behaviour of a simulation ends *)
Emit == pc = "finished" => PrintT(<<"SCHED", ToJson(sched)>>)
=============================================================================
