--------------------------- MODULE DispatcherReent ---------------------------
(***************************************************************************)
(* Listeners that use the thread safe dispatcher that is calling them: a   *)
(* line of $TRACE is the log of one execution on one thread, entries as in *)
(* DispatcherConc; kind "safe" or "same".  Processing may be nested.  What *)
(* is left open is the order among nested deliveries and whether a         *)
(* listener added or removed on the way hears of what is being processed.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils
VARIABLES tr, pos, status, why,
          reg,      \* registered listeners
          known,    \* events dispatched so far
          heard,    \* pairs <<listener, event>>
          depth,    \* nested processing
          must, may, due   \* of the outermost processing: listeners, events
vars == <<tr, pos, status, why, reg, known, heard, depth, must, may, due>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
E == T.ev[pos]
x == E[3]
Init == /\ tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-"
        /\ reg = {} /\ known = {} /\ heard = {} /\ depth = 0 /\ must = {} /\ may = {} /\ due = {}
Go == pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
Reject(w) == status' = "rejected" /\ why' = w /\ UNCHANGED <<tr, pos, reg, known, heard, depth, must, may, due>>
Skip == E[1] \in {"AddE", "RemE", "DisE", "OwnE"} /\ Go /\ UNCHANGED <<reg, known, heard, depth, must, may, due>>
AddB == E[1] = "AddB" /\ Go /\ reg' = reg \cup {x} /\ may' = may \cup {x} /\ UNCHANGED <<known, heard, depth, must, due>>
RemB == E[1] = "RemB" /\ Go /\ reg' = reg \ {x} /\ must' = must \ {x} /\ UNCHANGED <<known, heard, depth, may, due>>
DisB == /\ E[1] = "DisB" /\ Go /\ known' = known \cup {x}
        /\ due' = IF depth > 0 /\ T.kind = "same" THEN due \cup {x} ELSE due
        /\ UNCHANGED <<reg, heard, depth, must, may>>
(* whoever heard of an event, the event has been processed *)
Processed == {p[2] : p \in heard}
ProB == /\ E[1] = "ProB" /\ Go /\ depth' = depth + 1
        /\ IF depth = 0 THEN must' = reg /\ may' = reg /\ due' = known \ Processed
           ELSE UNCHANGED <<must, may, due>>
        /\ UNCHANGED <<reg, known, heard>>
ProE == /\ E[1] = "ProE"
        /\ IF depth = 1 /\ \E l \in must, e \in due : <<l, e>> \notin heard THEN Reject("an event was lost")
           ELSE Go /\ depth' = depth - 1 /\ UNCHANGED <<reg, known, heard, must, may, due>>
Call == /\ E[1] = "Call"
        /\ IF depth = 0 THEN Reject("listener called outside processing")
           ELSE IF E[4] \notin known THEN Reject("unknown event")
           ELSE IF <<x, E[4]>> \in heard THEN Reject("event delivered twice")
           ELSE IF x \notin may THEN Reject("a listener that is not registered was called")
           ELSE Go /\ heard' = heard \cup {<<x, E[4]>>} /\ UNCHANGED <<reg, known, depth, must, may, due>>
Next == status = "ok" /\ pos <= Len(T.ev) /\ (Skip \/ AddB \/ RemB \/ DisB \/ ProB \/ ProE \/ Call)
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
Complete == status = "ok" /\ pos <= Len(T.ev) => ENABLED Next
=============================================================================
