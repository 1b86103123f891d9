------------------------------ MODULE SemiETrace ------------------------------
(* Recorded operations on the real step with recording inner steps.        *)
(* op: [op, y, calls |-> <<[who, what, doc, model, ret, em]>>, ret, ev, stale] *)
EXTENDS SemiE, Json, IOUtils, TLC
VARIABLES tr, pos, status, why
vars == <<tr, pos, status, why>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Op == T.ops[pos]
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-"
RECURSIVE Emitted(_, _)
Emitted(cs, n) == IF n = 0 THEN <<>> ELSE Emitted(cs, n - 1) \o cs[n].em
Verdict ==
    LET cs == Op.calls IN
    IF Op.op = "after" THEN IF Op.ev = <<>> THEN "ok" ELSE "events after the step is gone"
    ELSE IF {<<cs[i].who, cs[i].what>> : i \in 1..Len(cs)} # Calls(Op)
         THEN "wrong inner step"
    ELSE IF Len(cs) # (IF Op.op = "doc" THEN 1 ELSE 2) THEN "inner step called repeatedly"
    ELSE IF Op.op = "doc" /\ (cs[1].doc # 1 \/ cs[1].model # 1) THEN "other document or model passed on"
    ELSE IF Op.op = "doc" /\ Op.ret # cs[1].ret THEN "result of the inner step is not returned"
    ELSE IF Op.ev # Emitted(cs, Len(cs)) THEN "events not published exactly once in order"
    ELSE IF Op.stale # 0 THEN "events published elsewhere"
    ELSE "ok"
Next == /\ status = "ok" /\ pos <= Len(T.ops)
        /\ IF Verdict = "ok" THEN pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
           ELSE status' = "rejected" /\ why' = Verdict /\ UNCHANGED <<tr, pos>>
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
