----------------------------- MODULE PoolSummary -----------------------------
(***************************************************************************)
(* Totals of calls over large corpora.  They follow from EpochProtocol:    *)
(* in a call of p passes over n documents each document begins its E step  *)
(* and is handed to the M step p times (once per pass), etc.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils
CONSTANT Focus
VARIABLES tr, status
Traces == ndJsonDeserialize(IOEnv.TRACE)
G(p, c) == p \notin Focus \/ c
OpOK(o) ==
    /\ G("C01", o.passes > 0 => /\ o.e_right = o.n /\ o.m_right = o.n
                                /\ o.m_docs = o.n /\ o.mispaired = 0)
    /\ G("C01", o.wrong_label = 0)
    /\ G("C02", o.corpus_e = o.passes /\ o.batch_m = o.passes /\ o.epochs = o.passes
                /\ o.stale = 0)
    /\ G("C03", o.passes = 0 => o.e_right = o.n /\ o.m_docs = 0
                                /\ o.cols = o.n /\ o.cols_right = o.n /\ o.batch_m = 0)
    /\ G("C04", o.delivered = o.n * (IF o.passes = 0 THEN 1 ELSE o.passes) /\ o.epochs = o.passes
                /\ o.m_delivered = o.passes /\ o.foreign = 0 /\ o.late = 0)
Init == tr \in 1..Len(Traces) /\ status = "new"
Next == /\ status = "new" /\ UNCHANGED tr
        /\ status' = IF \A i \in 1..Len(Traces[tr].ops) : OpOK(Traces[tr].ops[i]) THEN "ok" ELSE "rejected"
Spec == Init /\ [][Next]_<<tr, status>>
Accepted == status # "rejected"
=============================================================================
