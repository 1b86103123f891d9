---------------------------- MODULE DispatcherTrace ---------------------------
(* Sequential histories of the real dispatchers: ops [op, x, own, out]. *)
EXTENDS Dispatcher, Json, IOUtils, TLC
VARIABLES tr, pos, status, why, s
vars == <<tr, pos, status, why, s>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-" /\ s = Start
Next == /\ status = "ok" /\ pos <= Len(T.ops)
        /\ LET op == T.ops[pos] IN
           IF op.out # Out(T.kind, s, op) THEN status' = "rejected" /\ why' = <<"deliveries of", op.op>> /\ UNCHANGED <<tr, pos, s>>
           ELSE IF op.wrong # 0 THEN status' = "rejected" /\ why' = <<"called on another thread", op.op>> /\ UNCHANGED <<tr, pos, s>>
           ELSE s' = After(T.kind, s, op) /\ pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
