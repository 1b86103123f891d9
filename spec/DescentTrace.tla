----------------------------- MODULE DescentTrace -----------------------------
(***************************************************************************)
(* Runs of the real gradient descent with a line search that passes every  *)
(* call on to the real one.  T.cbs are the callback calls [v, gn, it, go],     *)
(* T.steps the line searches [x0, g, d, ret, x1]; or single searches       *)
(* (T.mode = "search") along other directions; or descents of very many    *)
(* iterations of which only counts are kept (T.mode = "long").             *)
(***************************************************************************)
EXTENDS Descent, Json, IOUtils, TLC
VARIABLES tr, pos, status, why, x
vars == <<tr, pos, status, why, x>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Rel == IF T.f = 1 THEN RDec(1, -4) ELSE RDec(1, -9)
Mag(o, y) == RAdd(R1, RAdd(RAbs(F(o, y)), RMaxOf([i \in 1..Len(y) |-> RMul(RInt(20), P2(y[i]))])))
Slack(s) == RMul(IF T.f = 1 THEN RDec(2, -5) ELSE RDec(1, -12), RAdd(Mag(T.o, s.x0), Mag(T.o, s.x1)))
VMaxAbs(v) == RMaxOf([i \in 1..Len(v) |-> RAbs(v[i])])
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-" /\ x = T.start
Reject(w) == status' = "rejected" /\ why' = w /\ UNCHANGED <<tr, pos, x>>

SearchOK(s) == Allowed(T.o, T.ls, s.x0, s.g, s.d, s.x1, Rel, Slack(s))
ReturnOK(s) == RNear(s.ret, F(T.o, s.x1), Rel, Slack(s))

Search == /\ T.mode = "search" /\ pos <= Len(T.steps)
          /\ LET s == T.steps[pos] IN
             IF ~SearchOK(s) THEN Reject("step of the line search")
             ELSE IF ~ReturnOK(s) THEN Reject("returned value")
             ELSE pos' = pos + 1 /\ UNCHANGED <<tr, status, why, x>>
Callback ==
    /\ T.mode = "minimize" /\ pos <= Len(T.cbs)
    /\ LET c == T.cbs[pos] IN
       IF c.it # pos - 1 THEN Reject("iteration number")
       ELSE IF ~RNear(c.v, F(T.o, x), Rel, RMul(Rel, Mag(T.o, x))) THEN Reject("value reported")
       ELSE IF ~RNear(c.gn, VMaxAbs(DF(T.o, x)), Rel, RMul(Rel, Mag(T.o, x))) THEN Reject("gradient reported")
       ELSE IF c.go = 0
            THEN IF pos = Len(T.cbs) /\ Len(T.steps) = pos - 1 /\ T.end = x
                 THEN pos' = pos + 1 /\ UNCHANGED <<tr, status, why, x>>
                 ELSE Reject("went on after being told to stop")
       ELSE IF Len(T.steps) < pos THEN Reject("stopped though told to go on")
       ELSE LET s == T.steps[pos] IN
            IF s.x0 # x THEN Reject("step from another point")
            ELSE IF ~(VNear(s.g, DF(T.o, x), Rel, RMul(Rel, Mag(T.o, x))) /\ s.d = s.g) THEN Reject("direction is not the gradient")
            ELSE IF ~SearchOK(s) THEN Reject("step of the line search")
            ELSE IF ~ReturnOK(s) THEN Reject("returned value")
            ELSE IF T.ls.kind = "armijo" /\ ~RLe(F(T.o, s.x1), RAdd(F(T.o, x), Slack(s))) THEN Reject("the objective rises")
            ELSE pos' = pos + 1 /\ x' = s.x1 /\ UNCHANGED <<tr, status, why>>
(* A callback that lets n iterations pass is called n + 1 times, with 0..n, *)
(* and every iteration moves on from where the one before ended.           *)
Long ==
    /\ T.mode = "long" /\ pos = 1
    /\ IF T.calls # T.stop + 1 \/ T.moves # T.stop THEN Reject("number of iterations of a long descent")
       ELSE IF T.off # 0 \/ \E k \in 1..Len(T.at) : T.at[k].it # T.at[k].n THEN Reject("iteration number in a long descent")
       ELSE IF T.breaks # 0 \/ T.end # 1 THEN Reject("a long descent leaves its path")
       ELSE pos' = 2 /\ UNCHANGED <<tr, status, why, x>>
Done == IF T.mode = "long" THEN pos > 1 ELSE IF T.mode = "search" THEN pos > Len(T.steps) ELSE pos > Len(T.cbs)
Next == status = "ok" /\ ~Done /\ (Search \/ Callback \/ Long)
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
