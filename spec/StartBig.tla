------------------------------- MODULE StartBig -------------------------------
(***************************************************************************)
(* Topics seeded from one document each of a corpus too large to be written *)
(* out: document d (from 0) has the words <<d \div 300, d % 300, 0>>.       *)
(* guess[k] names the document of topic k; it is checked, not believed.    *)
(* Every tenth of the corpus has to be drawn from (with 400 topics one is  *)
(* missed by chance with probability below 1e-16).                         *)
(***************************************************************************)
EXTENDS Real64, Json, IOUtils, TLC
VARIABLES tr, status, why
Traces == ndJsonDeserialize(IOEnv.TRACE)
Words(d) == <<d \div 300, d % 300, 0>>
SeededBy(d) == LET n == (d \div 300) + (d % 300) + 3 IN [w \in 1..3 |-> RFrac(Words(d)[w] + 1, n)]
Verdict(t) ==
    LET tol == IF t.f = 1 THEN RDec(1, -5) ELSE RDec(1, -12)
        from(k) == t.guess[k] \in 0..t.D - 1 /\ VNear([w \in 1..3 |-> t.beta[w][k]], SeededBy(t.guess[k]), tol, R0)
    IN IF Len(t.beta) # 3 \/ Len(t.beta[1]) # t.K THEN "shape of the topics"
       ELSE IF \E k \in 1..t.K : ~from(k) THEN "not the smoothed document"
       ELSE IF \E i \in 0..9 : \A k \in 1..t.K : (t.guess[k] * 10) \div t.D # i THEN "a part of the corpus is never drawn"
       ELSE "ok"
Init == tr \in 1..Len(Traces) /\ status = "new" /\ why = "-"
Next == /\ status = "new" /\ UNCHANGED tr
        /\ LET v == TLCEval(Verdict(Traces[tr])) IN why' = v /\ status' = IF v = "ok" THEN "ok" ELSE "rejected"
Spec == Init /\ [][Next]_<<tr, status, why>>
Accepted == status # "rejected"
=============================================================================
