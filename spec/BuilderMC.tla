------------------------------ MODULE BuilderMC ------------------------------
(***************************************************************************)
(* Every sequence of builder calls up to MaxOps.  The state machine with   *)
(* flags that the code keeps (eflag, mflag) is run next to the state       *)
(* machine of Builder.tla, and both against the history itself.            *)
(***************************************************************************)
EXTENDS Builder, TLC, Json
CONSTANTS MaxOps, Wide, Emit
VARIABLES s, hist, eflag, mflag, refused
vars == <<s, hist, eflag, mflag, refused>>

EKinds == {"classic", "sup", "fast", "semi", "multi", "corr"}
MKinds == {"classic", "sup", "fast", "online", "onlinev", "onlinee", "semi", "multi", "corr"}
Ps == IF Wide THEN {0, 1, 2} ELSE {1}
EGet == IF Wide THEN EKinds ELSE {"fast", "multi"}
MGet == IF Wide THEN MKinds ELSE {"sup", "corr"}
Ops == {[op |-> "it", n |-> n] : n \in {0, 2, 5}} \cup {[op |-> "wk", n |-> n] : n \in {1, 3}}
  \cup {[op |-> "E", kind |-> k, p |-> p, via |-> "set"] : k \in EKinds, p \in Ps}
  \cup {[op |-> "M", kind |-> k, p |-> p, via |-> "set"] : k \in MKinds, p \in Ps}
  \cup {[op |-> "E", kind |-> k, p |-> 2, via |-> "get"] : k \in EGet}
  \cup {[op |-> "M", kind |-> k, p |-> 2, via |-> "get"] : k \in MGet}
  \cup {[op |-> "T", how |-> h, K |-> k[1], id |-> k[2]] : h \in {"rand", "seed", "cseed"}, k \in (IF Wide THEN {<<2, 1>>, <<3, 2>>} ELSE {<<2, 1>>})}
  \cup {[op |-> "T", how |-> "copy", K |-> k[1], id |-> k[2]] : k \in {<<2, 1>>, <<3, 2>>, <<0, 3>>}}
  \cup {[op |-> "H", how |-> "copy", K |-> k[1], C |-> k[2], id |-> k[3]] : k \in {<<2, 2, 1>>, <<3, 3, 2>>, <<0, 0, 3>>}}
  \cup {[op |-> "H", how |-> h, C |-> c, id |-> 0] : h \in {"zero", "unif"}, c \in (IF Wide THEN {2, 3} ELSE {2})}
  \cup {[op |-> "build"]}

Init == s = Start /\ hist = <<>> /\ eflag = FALSE /\ mflag = FALSE /\ refused = FALSE
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops :
            /\ s' = After(s, op)
            /\ refused' = Refused(s, op)
            /\ hist' = Append(hist, op)
            /\ eflag' = (IF op.op = "E" THEN op.via = "set" /\ op.kind # "classic" ELSE eflag)
            /\ mflag' = (IF op.op = "M" THEN op.via = "set" /\ op.kind # "classic" ELSE mflag)
Spec == Init /\ [][Next]_vars

(* by the history alone *)
Idx(P(_)) == {i \in 1..Len(hist) : P(hist[i])}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Last(P(_), d) == IF Idx(P) = {} THEN d ELSE hist[Max(Idx(P))]
IsE(o) == o.op = "E"  IsM(o) == o.op = "M"  IsT(o) == o.op = "T"
LastE == Last(IsE, [op |-> "E", kind |-> "classic", p |-> 0, via |-> "set"])
LastM == Last(IsM, [op |-> "M", kind |-> "classic", p |-> 0, via |-> "set"])
LastT == Last(IsT, [op |-> "T", how |-> "none", K |-> 0, id |-> 0])
TopicsBefore(i) == LET S == {j \in 1..i - 1 : hist[j].op = "T"} IN IF S = {} THEN 0 ELSE hist[Max(S)].K
Effective(i) == hist[i].op = "H" /\ (hist[i].how = "copy" \/ TopicsBefore(i) > 0)
EtaK == LET S == {i \in 1..Len(hist) : Effective(i)} IN
        IF S = {} THEN 0 ELSE LET i == Max(S) IN IF hist[i].how = "copy" THEN hist[i].K ELSE TopicsBefore(i)

LastCallsCount == /\ s.e.kind = LastE.kind /\ s.e.p = LastE.p /\ s.m.kind = LastM.kind /\ s.m.p = LastM.p
                  /\ s.topics.K = LastT.K /\ s.topics.id = LastT.id /\ s.eta.K = EtaK
FlagsSuffice == Refused(s, [op |-> "build"]) <=> (s.topics.K = 0 \/ (s.eta.K = 0 /\ (eflag \/ mflag)))
RefusedExactly == Refused(s, [op |-> "build"]) <=>
    (LastT.K = 0 \/ (EtaK = 0 /\ \/ (LastE.via = "set" /\ LastE.kind # "classic")
                                 \/ (LastM.via = "set" /\ LastM.kind # "classic")))
(* a refusal leaves everything as it was, and setting what is missing helps *)
Remedy == LET t == IF s.topics.K = 0 THEN After(s, [op |-> "T", K |-> 2, id |-> 1]) ELSE s IN
          ~Refused(After(t, [op |-> "H", how |-> "zero", C |-> 2, id |-> 0]), [op |-> "build"])
Dump == (Emit /\ Len(hist) = MaxOps) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
