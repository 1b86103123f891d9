------------------------------- MODULE AppTrace -------------------------------
(***************************************************************************)
(* Runs of the console applications against Options.  A line of $TRACE:    *)
(*   inv       the invocation [app, cmd, opts]                             *)
(*   config    the configuration the reference run of the library had      *)
(*   rc        exit status of the application                              *)
(*   have      1 if the file it was to write exists and is well formed     *)
(*   model     for training, the model in that file; ref: the library's    *)
(*   out       for transform, the matrix in that file; ref: the library's  *)
(*   said      lines it printed [k, n, x]; blank: nothing at all printed   *)
(*   docs      number of documents                                         *)
(*   lik, mev  what the library reported per iteration                     *)
(*   loose     1 if the library's own result is not determined up to       *)
(*             rounding (a tolerance is just met) and workers are many     *)
(***************************************************************************)
EXTENDS Options, Real64, Json, IOUtils
VARIABLES tr, status, why
vars == <<tr, status, why>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
(* JSON has no empty function: an invocation without options carries <<>> *)
Inv == IF Len(T.names) = 0 THEN [app |-> T.inv.app, cmd |-> T.inv.cmd, opts |-> [o \in {} |-> ""]] ELSE T.inv
Same(a, b, tol) == (RIsNaN(a) /\ RIsNaN(b)) \/ RNear(a, b, tol, tol) \/ a = b
VSame(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i], tol)
MSame(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VSame(a[i], b[i], tol)
Many == Config(Inv).workers # "1"
Tol == IF Many THEN RDec(1, -5) ELSE RDec(1, -9)
Printed == RDec(1, -4)
(* what a training run that is not quiet reports, iteration by iteration *)
ItOf(n) == [k |-> "iter", n |-> n, x |-> R0]
DocsDone == [j \in 1..(T.docs \div 100) |-> [k |-> "docs", n |-> 100 * j, x |-> R0]]
RECURSIVE Report(_)
Report(i) == IF i > Len(T.mev) THEN <<>>
             ELSE <<ItOf(i)>> \o DocsDone
                  \o [j \in 1..Len(T.mev[i]) |-> [k |-> "m", n |-> 0, x |-> T.mev[i][j]]]
                  \o (IF RIsNaN(T.lik[i]) THEN <<>> ELSE <<[k |-> "lik", n |-> 0, x |-> T.lik[i]]>>) \o Report(i + 1)
Told == SelectSeq(T.said, LAMBDA r : r.k # "other")
(* with many workers a sampled likelihood is that of whichever documents were drawn *)
LikFree == Many /\ Config(Inv).likelihood \notin {"1.0", "1"}
ReportOk == LET e == Report(1) IN
            /\ Len(Told) = Len(e)
            /\ \A i \in 1..Len(e) : /\ Told[i].k = e[i].k /\ Told[i].n = e[i].n
                                    /\ (e[i].k = "m" \/ (e[i].k = "lik" /\ ~LikFree)) => Same(Told[i].x, e[i].x, Printed)
LikCount(q) == Len(SelectSeq(q, LAMBDA r : r.k = "lik"))
Verdict ==
    IF T.config # Config(Inv) THEN "the reference ran another configuration"
    ELSE IF T.rc # 0 THEN "the application failed"
    ELSE IF T.have # 1 THEN "no well formed file was written"
    ELSE IF Inv.cmd = "transform" THEN (IF ~MSame(T.out, T.ref, RDec(1, -9)) THEN "the written mixtures are not the library's"
                                        ELSE IF Config(Inv).quiet THEN (IF T.blank = 1 THEN "ok" ELSE "quiet but printed")
                                        ELSE IF SelectSeq(T.said, LAMBDA r : r.k = "docs") # DocsDone THEN "the reported progress is not what happened" ELSE "ok")
    ELSE IF T.model.alpha # T.ref.alpha THEN "another prior"
    ELSE IF T.loose = 1 THEN (IF Len(T.model.beta) # Len(T.ref.beta) \/ Len(T.model.eta) # Len(T.ref.eta) THEN "the model has another shape"
                              ELSE IF Config(Inv).quiet /\ T.blank # 1 THEN "quiet but printed" ELSE "ok")
    ELSE IF ~MSame(T.model.beta, T.ref.beta, Tol) THEN "the topics are not the library's"
    ELSE IF ~MSame(T.model.eta, T.ref.eta, Tol) THEN "the class weights are not the library's"
    ELSE IF Config(Inv).quiet THEN (IF T.blank = 1 THEN "ok" ELSE "quiet but printed")
    ELSE IF LikFree /\ LikCount(Told) # LikCount(Report(1)) THEN "ok"   \* which iterations drew a document is a matter of schedule
    ELSE IF ReportOk THEN "ok" ELSE "the reported progress is not what happened"
Init == tr \in 1..Len(Traces) /\ status = "ok" /\ why = "-"
Next == /\ status = "ok" /\ why = "-"
        /\ LET v == Verdict IN why' = v /\ status' = IF v = "ok" THEN "done" ELSE "rejected"
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
