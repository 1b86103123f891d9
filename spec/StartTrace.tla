------------------------------ MODULE StartTrace ------------------------------
(***************************************************************************)
(* Real initialisations.  A line of $TRACE: f, how ("rand", "seed"), K, V, *)
(* N, C, docs, docs_after, alpha, beta, again (beta of a second            *)
(* initialisation with the same arguments by a builder that was used       *)
(* before), others (betas for other random states), zeros, unif; cover = 1 *)
(* if so many topics were seeded that every document has to occur.         *)
(***************************************************************************)
EXTENDS Start, Json, IOUtils
VARIABLES tr, status, why
vars == <<tr, status, why>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Tol == IF T.f = 1 THEN RDec(1, -5) ELSE RDec(1, -12)
Fill(K, C, v) == [c \in 1..C |-> [k \in 1..K |-> v]]
RowOf(k) == [w \in 1..T.V |-> T.beta[w][k]]
Verdict ==
    LET rows == TLCEval([k \in 1..T.K |-> RowOf(k)])
        seeded == TLCEval({<<t, Seeded(T.docs, t, T.V)>> : t \in Draws(Len(T.docs), T.N)})
        drawn(k) == {x \in seeded : VNear(rows[k], x[2], Tol, R0)}
    IN
    IF Len(T.beta) # T.V \/ \E w \in 1..T.V : Len(T.beta[w]) # T.K THEN "shape of the topics"
    ELSE IF Len(T.alpha) # T.K \/ ~VNear(T.alpha, [k \in 1..T.K |-> RFrac(1, T.K)], Tol, R0) THEN "alpha is not 1/topics"
    ELSE IF \E k \in 1..T.K : ~Proper(rows[k], Tol) THEN "not a distribution"
    ELSE IF T.again # T.beta THEN "the same random state, other topics"
    ELSE IF T.docs_after # T.docs THEN "the documents changed"
    ELSE IF T.how = "seed" /\ \E k \in 1..T.K : drawn(k) = {} THEN "not the smoothed sum of N documents"
    ELSE IF T.vary = 1 /\ \E i \in 1..Len(T.others) : T.others[i] = T.beta THEN "the random state does not matter"
    ELSE IF T.vary = 1 /\ T.K > 1 /\ \A k \in 1..T.K : rows[k] = rows[1] THEN "all topics are the same"
    ELSE IF T.cover = 1 /\ \E d \in 1..Len(T.docs) : \A k \in 1..T.K : \A x \in drawn(k) : x[1][d] = 0 THEN "some document is never drawn"
    ELSE IF T.zeros # Fill(T.K, T.C, R0) THEN "class parameters are not zeros"
    ELSE IF ~MNear(T.unif, Fill(T.K, T.C, RFrac(1, T.C)), Tol, R0) THEN "class parameters are not uniform"
    ELSE "ok"
Init == tr \in 1..Len(Traces) /\ status = "ok" /\ why = "-"
Next == /\ why = "-"
        /\ LET v == Verdict IN why' = v /\ status' = IF v = "ok" THEN "done" ELSE "rejected"
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
