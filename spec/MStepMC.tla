------------------------------- MODULE MStepMC --------------------------------
(* Every small history of the specified maximization steps. *)
EXTENDS MStep
CONSTANTS MaxOps, Batch
VARIABLES kind, model, b, h, docs, vel, ops, last, since
vars == <<kind, model, b, h, docs, vel, ops, last, since>>
Q == RFrac(1, 4)
TQ == RFrac(3, 4)
Alpha == <<Q, TQ>>
Phi1 == <<<<Q, TQ>>, <<TQ, Q>>>>
Phi2 == <<<<R1, R0>>, <<Q, TQ>>>>
D(x, y, phi) == [X |-> x, y |-> y, phi |-> phi, tau |-> <<Q, R1>>,
                 gamma |-> [i \in 1..2 |-> RAdd(Alpha[i], RAdd(RMul(RInt(x[1]), phi[1][i]), RMul(RInt(x[2]), phi[2][i])))]]
Docs == { D(<<1, 2>>, 0, Phi1), D(<<0, 3>>, 1, Phi2), D(<<0, 0>>, 1, Phi1), D(<<2, 1>>, -1, Phi2) }
Kinds == {"unsup", "fast", "semi", "multi", "corr", "online"}
M0 == [alpha |-> Alpha, beta |-> <<<<Q, TQ>>, <<TQ, Q>>>>, eta |-> <<<<Q, TQ>>, <<TQ, Q>>>>]
W == <<R1, RInt(2)>>
Init == /\ kind \in Kinds /\ model = M0 /\ b = Zero(2, 2) /\ h = Zero(2, 2) /\ docs = <<>> /\ vel = Zero(2, 2)
        /\ ops = 0 /\ last = <<>> /\ since = 0
HasMass(bb) == \A i \in 1..2 : RLt(R0, RowSums(bb, 2)[i])
Doc == \E d \in Docs :
    /\ ops < MaxOps /\ (kind = "semi" \/ d.y >= 0) /\ ops' = ops + 1
    /\ kind # "online" \/ Len(docs) > 0 \/ HasMass(AddCounts(kind, b, d))
    /\ LET b2 == AddCounts(kind, b, d)
           ds == IF Labelled(kind, d) THEN Append(docs, d) ELSE docs IN
       IF kind = "online" /\ Len(ds) = Batch
       THEN LET p == Weighted(Problem(kind, ds, Alpha, Q), W)
                v2 == OnlineVelocity(vel, Gradient(p, model.eta), TQ, Q) IN
            /\ model' = [model EXCEPT !.beta = OnlineBeta(@, b2, TQ, 2), !.eta = MAdd(@, v2)]
            /\ vel' = v2 /\ docs' = <<>> /\ b' = b2 /\ last' = ds /\ since' = 0 /\ UNCHANGED <<kind, h>>
       ELSE /\ b' = b2 /\ h' = AddClass(kind, h, d, 2) /\ docs' = ds
            /\ last' = Append(last, d) /\ since' = since + 1 /\ UNCHANGED <<kind, model, vel>>
Update ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ IF kind = "online" THEN UNCHANGED <<kind, model, b, h, docs, vel, last, since>>
       ELSE /\ HasMass(b)
            /\ model' = [model EXCEPT !.beta = NormaliseRows(b, 2),
                                      !.eta = CASE kind \in {"multi", "corr"} -> SmoothedEta(h, RInt(2), 2)
                                                [] kind \in {"fast", "semi"} /\ docs # <<>> ->
                                                     Move(@, RFrac(1, 8), Gradient(Problem(kind, docs, Alpha, Q), @))
                                                [] OTHER -> @]
            /\ b' = Zero(2, 2) /\ h' = Zero(2, 2) /\ docs' = <<>> /\ last' = <<>> /\ since' = 0 /\ UNCHANGED <<kind, vel>>
Next == Doc \/ Update
Spec == Init /\ [][Next]_vars

T12 == RDec(1, -12)
ProperTopics == \A i \in 1..2 : RClose(RowSums(model.beta, 2)[i], R1, T12) /\ \A j \in 1..2 : RLe(R0, model.beta[j][i])
ProperClasses == kind \in {"multi", "corr"} => \A i \in 1..2 : RClose(RowSums(model.eta, 2)[i], R1, T12)
AlphaFixed == model.alpha = Alpha
BatchNotExceeded == kind = "online" => Len(docs) < Batch
(* the statistics are those of exactly the documents since the last update *)
OfThisPass == kind # "online" =>
    /\ since = Len(last)
    /\ MClose(b, [j \in 1..2 |-> [i \in 1..2 |-> RSum([q \in 1..Len(last) |-> Counts(kind, last[q])[j][i]])]], T12)
(* a step without labelled documents leaves the class parameters alone; no document changes a batch model *)
DocsKeepModel == [][(kind # "online" /\ since' > since) => model' = model]_vars
NoLabelsNoFit == [][(kind = "semi" /\ docs = <<>> /\ since' = 0) => model'.eta = model.eta]_vars
=============================================================================
