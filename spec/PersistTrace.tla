----------------------------- MODULE PersistTrace -----------------------------
(***************************************************************************)
(* A model file read and written again without training (C10): a run of    *)
(* Store with no iterations.  A line of $TRACE: app, in (the model of the  *)
(* file named by --continue), rc, have, out (the model of the file         *)
(* written), again (the model of the file a second such run wrote from     *)
(* that), all bit for bit.  Unsupervised training keeps no class weights:  *)
(* it writes one column of zeros.                                          *)
(***************************************************************************)
EXTENDS Real64, Json, IOUtils, TLC
VARIABLES tr, status, why
vars == <<tr, status, why>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Eta == IF T.app = "lda" THEN <<Zeros(Len(T.in.alpha))>> ELSE T.in.eta
Verdict ==
    IF T.rc # 0 THEN "the application failed"
    ELSE IF T.have # 1 THEN "no well formed model file"
    ELSE IF T.out.alpha # T.in.alpha THEN "another prior"
    ELSE IF T.out.beta # T.in.beta THEN "other topics"
    ELSE IF T.out.eta # Eta THEN "other class weights"
    ELSE IF T.again # T.out THEN "not stable"
    ELSE "ok"
Init == tr \in 1..Len(Traces) /\ status = "ok" /\ why = "-"
Next == /\ status = "ok" /\ why = "-"
        /\ LET v == Verdict IN why' = v /\ status' = IF v = "ok" THEN "done" ELSE "rejected"
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
