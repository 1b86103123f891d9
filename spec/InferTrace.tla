------------------------------ MODULE InferTrace ------------------------------
(***************************************************************************)
(* Histories of calls on one real LDA object.  A line of $TRACE: f, K, C,  *)
(* model (initial), ops: sequence of records                               *)
(*   op "train" : model after                                              *)
(*   op "infer" : docs, alone (the mixture of each document computed by    *)
(*     itself by the same kind of expectation step on the model), G        *)
(*     (transform), S (decision_function), y (predict), G2, y2             *)
(*     (transform_predict), model after                                    *)
(***************************************************************************)
EXTENDS Infer, Json, IOUtils
VARIABLES tr, pos, status, why, model
vars == <<tr, pos, status, why, model>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Op == T.ops[pos]
Tol == IF T.f = 1 THEN RDec(2, -3) ELSE RDec(1, -8)
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-" /\ model = Traces[tr].model
N == Len(Op.docs)
Verdict ==
    IF Op.model # model THEN "the model changed"
    ELSE IF Len(Op.G) # N \/ \E i \in 1..N : Len(Op.G[i]) # T.K THEN "shape of transform"
    ELSE IF Op.G # Op.alone THEN "transform is not the documents' own mixtures in order"
    ELSE IF Op.G2 # Op.G THEN "transform_predict differs from transform"
    ELSE IF Len(Op.S) # N \/ Len(Op.y) # N \/ Len(Op.y2) # N THEN "shape of scores or predictions"
    ELSE IF \E i \in 1..N : Len(Op.S[i]) # T.C THEN "shape of scores"
    ELSE IF \E i \in 1..N : Words(Op.docs[i]) /\ ~VNear(Op.S[i], Scores(Op.G[i], model), Tol, Tol) THEN "scores"
    ELSE IF \E i \in 1..N : Words(Op.docs[i]) /\ Decidable(Op.S[i]) /\ ~Best(Op.S[i], Op.y[i] + 1) THEN "not a best class"
    ELSE IF \E i \in 1..N : Words(Op.docs[i]) /\ Op.y[i] # Op.y2[i] THEN "transform_predict differs from predict"
    ELSE "ok"
Train == Op.op = "train" /\ model' = Op.model /\ pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
Infers ==
    /\ Op.op = "infer"
    /\ LET v == Verdict IN
       IF v = "ok" THEN pos' = pos + 1 /\ UNCHANGED <<tr, status, why, model>>
       ELSE status' = "rejected" /\ why' = v /\ UNCHANGED <<tr, pos, model>>
Next == status = "ok" /\ pos <= Len(T.ops) /\ (Train \/ Infers)
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
