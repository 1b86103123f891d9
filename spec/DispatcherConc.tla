---------------------------- MODULE DispatcherConc ----------------------------
(***************************************************************************)
(* Concurrent histories of the real thread safe dispatchers.  A line of    *)
(* $TRACE is the log of one execution, entries <<what, thread, x>>:        *)
(*   AddB/AddE l, RemB/RemE l, DisB/DisE e, ProB/ProE, Call l e, OwnE e    *)
(* (B: call begins, E: has returned; OwnE: a dispatch of the owning thread *)
(* of a same-thread dispatcher has returned).  Every listener is operated  *)
(* on by one thread; listener 0 stays registered.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES tr, pos, status, why,
          reg,        \* listener -> out | adding | in | removing
          before,     \* listener -> listeners registered before it
          began, ended, pre,   \* events: dispatch begun / returned, events that had returned before it began
          delivered, cur, called,   \* events delivered, the one being delivered, to whom
          busy, must, mustE, never  \* the process call going on
vars == <<tr, pos, status, why, reg, before, began, ended, pre, delivered, cur, called, busy, must, mustE, never>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
E == T.ev[pos]
Ls == 0..T.l
Init == /\ tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-"
        /\ reg = [l \in Ls |-> "out"] /\ before = [l \in Ls |-> {}]
        /\ began = {} /\ ended = {} /\ pre = <<>>
        /\ delivered = {} /\ cur = 0 /\ called = <<>>
        /\ busy = FALSE /\ must = {} /\ mustE = {} /\ never = {}
Reject(w) == status' = "rejected" /\ why' = w /\ UNCHANGED <<tr, pos, reg, before, began, ended, pre, delivered, cur, called, busy, must, mustE, never>>
Go == pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
KeepEv == UNCHANGED <<began, ended, pre, delivered, cur, called, mustE>>
x == E[3]

AddB == E[1] = "AddB" /\ Go /\ reg' = [reg EXCEPT ![x] = "adding"]
        /\ before' = [l \in Ls |-> IF l = x THEN {m \in Ls : reg[m] = "in"} ELSE before[l] \ {x}]
        /\ never' = never \ {x} /\ UNCHANGED <<busy, must>> /\ KeepEv
AddE == E[1] = "AddE" /\ Go /\ reg' = [reg EXCEPT ![x] = "in"] /\ UNCHANGED <<before, busy, must, never>> /\ KeepEv
RemB == E[1] = "RemB" /\ Go /\ reg' = [reg EXCEPT ![x] = "removing"] /\ must' = must \ {x}
        /\ UNCHANGED <<before, busy, never>> /\ KeepEv
RemE == E[1] = "RemE" /\ Go /\ reg' = [reg EXCEPT ![x] = "out"] /\ UNCHANGED <<before, busy, must, never>> /\ KeepEv
DisB == E[1] = "DisB" /\ Go /\ began' = began \cup {x} /\ pre' = pre @@ (x :> ended)
        /\ UNCHANGED <<ended, delivered, cur, called, mustE, reg, before, busy, must, never>>
DisE == E[1] = "DisE" /\ Go /\ ended' = ended \cup {x}
        /\ UNCHANGED <<began, pre, delivered, cur, called, mustE, reg, before, busy, must, never>>
(* everyone who had to hear of the event being delivered has *)
Called == {called[i] : i \in 1..Len(called)}
CurComplete == cur = 0 \/ must \subseteq Called
ProB == E[1] = "ProB" /\ Go /\ busy' = TRUE /\ must' = {l \in Ls : reg[l] = "in"} /\ never' = {l \in Ls : reg[l] = "out"}
        /\ mustE' = ended \ delivered /\ cur' = 0 /\ called' = <<>>
        /\ UNCHANGED <<reg, before, began, ended, pre, delivered>>
ProE == E[1] = "ProE" /\
        IF ~CurComplete THEN Reject("a registered listener was left out")
        ELSE IF ~(mustE \subseteq delivered) THEN Reject("an event was not processed")
        ELSE Go /\ busy' = FALSE /\ cur' = 0 /\ called' = <<>>
             /\ UNCHANGED <<reg, before, began, ended, pre, delivered, must, mustE, never>>
OwnE == E[1] = "OwnE" /\ IF x \notin delivered THEN Reject("not delivered at once")
                         ELSE Go /\ UNCHANGED <<reg, before, began, ended, pre, delivered, cur, called, busy, must, mustE, never>>
Call == /\ E[1] = "Call"
        /\ LET l == x
               e == E[4] IN
           IF E[2] # 0 THEN Reject("listener called on another thread")
           ELSE IF ~busy THEN Reject("listener called outside processing")
           ELSE IF e \notin began THEN Reject("unknown event")
           ELSE IF l \in never THEN Reject("a listener that is not registered was called")
           ELSE IF e = cur
           THEN IF l \in Called THEN Reject("event delivered twice")
                ELSE IF \E m \in Called : l \in before[m] /\ reg[l] = "in" /\ reg[m] = "in" /\ {l, m} \subseteq must
                     THEN Reject("listeners called out of order")
                ELSE Go /\ called' = Append(called, l)
                     /\ UNCHANGED <<reg, before, began, ended, pre, delivered, cur, busy, must, mustE, never>>
           ELSE IF e \in delivered THEN Reject("event delivered twice")
           ELSE IF ~CurComplete THEN Reject("a registered listener was left out")
           ELSE IF ~(pre[e] \subseteq delivered) THEN Reject("events delivered out of order")
           ELSE Go /\ cur' = e /\ called' = <<l>> /\ delivered' = delivered \cup {e}
                /\ UNCHANGED <<reg, before, began, ended, pre, busy, must, mustE, never>>
Next == status = "ok" /\ pos <= Len(T.ev)
        /\ (AddB \/ AddE \/ RemB \/ RemE \/ DisB \/ DisE \/ ProB \/ ProE \/ OwnE \/ Call)
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
(* an execution that stops early, or an entry with no meaning, is no behaviour *)
Complete == status = "ok" /\ pos <= Len(T.ev) => ENABLED Next
=============================================================================
