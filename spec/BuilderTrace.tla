----------------------------- MODULE BuilderTrace -----------------------------
(***************************************************************************)
(* Sequences of calls on real builders.  A line of $TRACE: cpus, ops:      *)
(* sequence of operations of Builder.tla, each with outcome ("ok",         *)
(* "runtime_error", "other"), and                                          *)
(*   T : topics [alpha, beta], what such a call provides                   *)
(*   H, copy : val, the class parameters of the other model at that time   *)
(*   build : model [alpha, beta, eta] of the built LDA; probe = 1:         *)
(*     match, the pairs of steps of this history (made directly, not by    *)
(*     the builder) that train exactly like the built LDA; fit = 1: epochs *)
(*     and threads of a training run                                       *)
(***************************************************************************)
EXTENDS Builder, Real64, Json, IOUtils
VARIABLES tr, pos, s, status, why
vars == <<tr, pos, s, status, why>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Op == T.ops[pos]
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ s = Start /\ status = "ok" /\ why = "-"

Fill(K, C, v) == [c \in 1..C |-> [k \in 1..K |-> v]]
EtaOk(got) ==
    CASE s.eta.how = "zero" -> got = Fill(s.eta.K, s.eta.C, R0)
      [] s.eta.how = "unif" -> MNear(got, Fill(s.eta.K, s.eta.C, RFrac(1, s.eta.C)), RDec(1, -6), R0)
      [] s.eta.how = "copy" -> got = T.ops[s.eta.id].val
      [] OTHER -> \A c \in 1..Len(got) : got[c] = <<>>
Step(x) == <<x.kind, x.p>>
Verdict ==
    IF Refused(s, Op) THEN IF Op.outcome = "runtime_error" THEN "ok" ELSE "should have been refused with a runtime error"
    ELSE IF Op.outcome # "ok" THEN "refused for no reason"
    ELSE IF Op.op # "build" THEN "ok"
    ELSE IF Op.model.alpha # T.ops[s.topics.id].topics.alpha THEN "alpha is not that of the last topics"
    ELSE IF Op.model.beta # T.ops[s.topics.id].topics.beta THEN "not the last topics"
    ELSE IF ~EtaOk(Op.model.eta) THEN "not the last class parameters"
    ELSE IF Op.probe = 0 THEN "ok"
    ELSE IF \A i \in 1..Len(Op.match) : Op.match[i] # <<Step(s.e), Step(s.m)>> THEN "not the last steps"
    ELSE IF Op.fit = 0 THEN "ok"
    ELSE IF Op.epochs # s.it THEN "not the last number of iterations"
    ELSE IF LET w == IF s.wk = 0 THEN T.cpus ELSE s.wk IN Op.threads \notin {w, s.it * w} THEN "not the last number of workers"
    ELSE "ok"
Next == /\ status = "ok" /\ pos <= Len(T.ops)
        /\ LET v == Verdict IN
           IF v = "ok" THEN /\ s' = After(s, Op) /\ pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
           ELSE status' = "rejected" /\ why' = v /\ UNCHANGED <<tr, pos, s>>
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
