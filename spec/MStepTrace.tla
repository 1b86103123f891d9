------------------------------ MODULE MStepTrace ------------------------------
(***************************************************************************)
(* Histories of calls on one real maximization step.  A line of $TRACE:    *)
(*  kind, f, parameters, model (initial), ops: sequence of                 *)
(*   [op |-> "doc", d |-> document, model, ev]                             *)
(*   [op |-> "m", model, ev]                                               *)
(* with the model found after the call and the values published by it.     *)
(***************************************************************************)
EXTENDS MStep, Json, IOUtils, TLC
CONSTANT Focus
VARIABLES tr, pos, status, why,
          model,      \* parameters before operation pos (as recorded)
          b, h, docs, \* statistics: counts, class counts, documents
          vel,        \* online velocity
          gd          \* descent in progress, or <<>>
vars == <<tr, pos, status, why, model, b, h, docs, vel, gd>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
G(p, cond) == p \notin Focus \/ cond
KK == Len(T.model.alpha)
VV == Len(T.model.beta)
CC == Len(T.model.eta)
Rel == IF T.f = 1 THEN RDec(2, -4) ELSE RDec(1, -9)
Slack == IF T.f = 1 THEN RDec(1, -4) ELSE RDec(1, -10)
Far == IF T.f = 1 THEN RDec(5, -3) ELSE RDec(1, -6)
Op == T.ops[pos]
M(x, y) == MNear(x, y, Rel, Rel)

Init == /\ tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-"
        /\ model = T.model
        /\ b = Zero(KK, VV) /\ h = Zero(KK, CC) /\ docs = <<>>
        /\ vel = Zero(KK, CC) /\ gd = <<>>

Online == T.kind = "online"
Descends == T.kind \in {"sup", "fast", "semi"}
Class == {"C17", "C15"} \* whichever property this kind of step belongs to
Own(cond) == IF T.kind = "semi" THEN G("C15", cond) ELSE G("C17", cond)

Reject(w) == status' = "rejected" /\ why' = w /\ UNCHANGED <<tr, pos, model, b, h, docs, vel, gd>>

(* ------------------------------ a document ----------------------------- *)
Unchanged == Op.model = model
DocBatch ==
    /\ ~Online /\ Op.op = "doc" /\ gd = <<>>
    /\ IF ~Own(Unchanged) THEN Reject("a document changed the model")
       ELSE IF ~Own(Op.ev = <<>>) THEN Reject("a document published a maximization value")
       ELSE /\ b' = AddCounts(T.kind, b, Op.d)
            /\ h' = AddClass(T.kind, h, Op.d, KK)
            /\ docs' = IF Labelled(T.kind, Op.d) THEN Append(docs, Op.d) ELSE docs
            /\ pos' = pos + 1 /\ UNCHANGED <<tr, status, why, model, vel, gd>>

(* --------------------- batch update without descent -------------------- *)
BetaOK == M(Op.model.beta, NormaliseRows(b, KK)) /\ Op.model.alpha = model.alpha
Reset == b' = Zero(KK, VV) /\ h' = Zero(KK, CC) /\ docs' = <<>>
(* without smoothing a class may be impossible for a topic: its logarithm is no number *)
NoNumber(x) == RIsNaN(RSub(x, x))
Reported(x, e) == IF NoNumber(e) THEN NoNumber(x) ELSE RClose(x, e, Rel)
MBatch ==
    /\ ~Online /\ Op.op = "m" /\ ~Descends
    /\ IF ~Own(BetaOK) THEN Reject("topics")
       ELSE IF ~Own(IF T.kind = "unsup" THEN Op.model.eta = model.eta
                    ELSE M(Op.model.eta, SmoothedEta(h, T.mu, KK))) THEN Reject("class parameters")
       ELSE IF ~G("C22", IF T.kind = "unsup" THEN Op.ev = <<>>
                         ELSE Len(Op.ev) = 1 /\ Reported(Op.ev[1], LogPy(T.kind, docs, model.eta, KK)))
            THEN Reject("reported value")
       ELSE /\ Reset /\ model' = Op.model /\ pos' = pos + 1 /\ UNCHANGED <<tr, status, why, vel, gd>>

(* ----------------------- batch update with descent --------------------- *)
MBegin ==
    /\ Descends /\ Op.op = "m" /\ gd = <<>>
    /\ IF ~Own(BetaOK) THEN Reject("topics")
       ELSE IF docs = <<>>
       THEN IF Own(Op.model.eta = model.eta /\ Op.ev = <<>>)
            THEN /\ Reset /\ model' = Op.model /\ pos' = pos + 1 /\ UNCHANGED <<tr, status, why, vel, gd>>
            ELSE Reject("class parameters without labelled documents")
       ELSE /\ gd' = [p |-> TLCEval(Problem(T.kind, docs, model.alpha, T.L)), x |-> model.eta, k |-> 0, prev |-> <<2146435072, 0>>]
            /\ UNCHANGED <<tr, pos, status, why, model, b, h, docs, vel>>

NEv == Len(Op.ev)
J(q) == RNeg(Op.ev[q])
Finish == /\ Reset /\ gd' = <<>> /\ model' = Op.model /\ pos' = pos + 1 /\ UNCHANGED <<tr, status, why, vel>>
(* what holds for every fit, however its line searches went *)
Ends == /\ NEv >= 1 /\ RClose(J(1), Value(gd.p, model.eta), Rel)
        /\ RClose(J(NEv), Value(gd.p, Op.model.eta), Rel)
Sane == /\ NEv <= T.iters + 1
        /\ \A q \in 1..NEv - 1 : RLe(J(q + 1), RAdd(J(q), RMul(Slack, RAdd(R1, RAbs(J(q))))))
(* the descent goes on exactly while iterations are left and the last one
   improved the value by more than the tolerance; judged from the values it
   reported itself *)
Nought(q) == RLe(RAbs(J(q)), Slack)     \* nothing left but rounding
Keeps(q) == q = 1 \/ Nought(q) \/ RLe(RSub(T.tol, Slack), Improvement(J(q - 1), J(q)))
Stops(q) == \/ q = T.iters + 1 \/ Nought(q)
            \/ q > 1 /\ (RIsNaN(Improvement(J(q - 1), J(q))) \/ RLe(Improvement(J(q - 1), J(q)), RAdd(T.tol, Slack)))
Told == (\A q \in 1..NEv - 1 : Keeps(q)) /\ (NEv >= 1 => Stops(NEv))
(* rounding errors grow with every step, so only the first steps are followed
   one by one *)
Follow == IF T.f = 1 THEN 3 ELSE 8
(* backtracking: exponent of the step, or -1 if a decision is too close *)
Tau(n) == RPow(RFrac(1, 2), RInt(n))
RECURSIVE Backtrack(_, _, _, _)
Backtrack(g, v, slope, n) ==
    LET gap == ArmijoGap(Value(gd.p, Move(gd.x, Tau(n), g)), v, Tau(n), slope)
    IN  IF RLe(RAbs(gap), RMul(Slack, RAdd(R1, RAbs(v)))) \/ RIsNaN(gap) \/ n > 60 THEN -1
        ELSE IF RLe(gap, R0) THEN n ELSE Backtrack(g, v, slope, n + 1)

MStepOfDescent ==
    /\ gd # <<>>
    /\ \E v \in {Value(gd.p, gd.x)} : \E g \in {IF "C20" \in Focus THEN Gradient(gd.p, gd.x) ELSE <<>>} :
       LET imp == Improvement(gd.prev, v)
           unsure == gd.k > 0 /\ RLe(RAbs(RSub(imp, T.tol)), Far)
           on == gd.k < T.iters /\ RLt(T.tol, imp)
           n == Backtrack(g, v, RMul(RDec(1, -3), Sq(g)), 0)
       IN
       IF gd.k = 0 /\ ~(Own(Ends) /\ G("C15", T.kind # "semi" \/ Ends)) THEN Reject("not fitted to the documents of this pass")
       ELSE IF ~G("C20", Sane) THEN Reject("fit gets worse or takes too long")
       ELSE IF ~G("C20", Told) THEN Reject("does not stop when told")
       ELSE IF "C20" \notin Focus \/ gd.k > Follow THEN Finish
       ELSE IF gd.k + 1 > NEv \/ ~RClose(J(gd.k + 1), v, Far) THEN Reject("value of an iterate")
       ELSE IF unsure /\ gd.k < T.iters THEN Finish
       ELSE IF ~on THEN IF NEv = gd.k + 1 /\ MNear(Op.model.eta, gd.x, Far, Far) THEN Finish
                        ELSE Reject("did not stop when told")
       ELSE IF n = -1 THEN Finish
       ELSE /\ gd' = [gd EXCEPT !.x = Move(gd.x, Tau(n), g), !.k = @ + 1, !.prev = v]
            /\ UNCHANGED <<tr, pos, status, why, model, b, h, docs, vel>>

(* -------------------------------- online ------------------------------- *)
DocOnline ==
    /\ Online /\ Op.op = "doc"
    /\ LET b2 == AddCounts("online", b, Op.d)
           ds == Append(docs, Op.d)
           p  == TLCEval(Weighted(Problem("online", ds, model.alpha, T.L), T.w))
           v2 == OnlineVelocity(vel, Gradient(p, model.eta), T.momentum, T.rate)
       IN
       IF Len(ds) < T.batch
       THEN IF G("C16", Unchanged /\ Op.ev = <<>>)
            THEN b' = b2 /\ docs' = ds /\ pos' = pos + 1 /\ UNCHANGED <<tr, status, why, model, h, vel, gd>>
            ELSE Reject("updated before the mini-batch was full")
       ELSE IF ~G("C16", Op.model.alpha = model.alpha /\ M(Op.model.beta, OnlineBeta(model.beta, b2, T.bw, KK)))
            THEN Reject("topics of the update")
       ELSE IF ~G("C16", M(Op.model.eta, MAdd(model.eta, v2))) THEN Reject("class parameters of the update")
       ELSE IF ~G("C16", Len(Op.ev) = 1 /\ RClose(Op.ev[1], RNeg(Value(p, Op.model.eta)), Rel)) THEN Reject("reported value")
       ELSE /\ b' = b2 /\ docs' = <<>> /\ vel' = v2 /\ model' = Op.model /\ pos' = pos + 1
            /\ UNCHANGED <<tr, status, why, h, gd>>
MOnline ==
    /\ Online /\ Op.op = "m"
    /\ IF G("C16", Unchanged /\ Op.ev = <<>>) THEN pos' = pos + 1 /\ UNCHANGED <<tr, status, why, model, b, h, docs, vel, gd>>
       ELSE Reject("updated at the end of a pass")

Next == status = "ok" /\ pos <= Len(T.ops) /\ (DocBatch \/ MBatch \/ MBegin \/ MStepOfDescent \/ DocOnline \/ MOnline)
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
