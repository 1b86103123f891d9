------------------------------ MODULE TrainTrace ------------------------------
(***************************************************************************)
(* The same training data and settings with different numbers of workers   *)
(* and different schedules, against TrainOrder.  A line of $TRACE: kind,   *)
(* initial (model), runs: sequence of [w, pol, model]; tr: sequence of     *)
(* [w, G], the mixtures inferred by one and the same model.                *)
(* Runs with one worker have no freedom at all: they agree to the bit.     *)
(* Runs with more may add the same numbers in another order: they agree    *)
(* within what rounding can make of it.                                    *)
(***************************************************************************)
EXTENDS Real64, Json, IOUtils
VARIABLES tr, status, why
vars == <<tr, status, why>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Tol == RDec(1, -6)
Near(a, b) == VNear(a.alpha, b.alpha, Tol, Tol) /\ MNear(a.beta, b.beta, Tol, Tol) /\ MNear(a.eta, b.eta, Tol, Tol)
Verdict ==
    LET R == T.runs  one == {i \in 1..Len(R) : R[i].w = 1} IN
    IF \E i \in 1..Len(R) : R[i].model.alpha # T.initial.alpha THEN "the prior changed"
    ELSE IF \E i \in 1..Len(R) : ~(MFinite(R[i].model.beta) /\ MFinite(R[i].model.eta)) THEN "not finite"
    ELSE IF \E i, j \in one : R[i].model # R[j].model THEN "one worker, same data, another model"
    ELSE IF \E i \in 2..Len(R) : ~Near(R[1].model, R[i].model) THEN "the model depends on the workers"
    ELSE IF \E i \in 2..Len(T.tr) : T.tr[i].G # T.tr[1].G THEN "the inferred mixtures depend on the workers"
    ELSE "ok"
Init == tr \in 1..Len(Traces) /\ status = "ok" /\ why = "-"
Next == /\ status = "ok" /\ why = "-"
        /\ LET v == Verdict IN why' = v /\ status' = IF v = "ok" THEN "done" ELSE "rejected"
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
