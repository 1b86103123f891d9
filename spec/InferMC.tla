------------------------------- MODULE InferMC -------------------------------
(* All small integer models: a best class always exists, scores do not      *)
(* depend on the size of the document beyond its proportions, and adding    *)
(* the same amount to every class leaves the best classes as they are.      *)
EXTENDS Infer
VARIABLES g, eta, k
V2 == {<<a, b>> : a \in 1..4, b \in 1..4} \ {<<1, 1>>}
E2 == {<<a, b>> : a \in -1..1, b \in -1..1}
Num(s) == [i \in 1..Len(s) |-> RInt(s[i])]
Model(e) == [alpha |-> <<R1, R1>>, eta |-> <<Num(e[1]), Num(e[2]), Num(e[3])>>]
Init == g \in V2 /\ eta \in E2 \X E2 \X E2 /\ k = 1
Next == k < 3 /\ k' = k + 1 /\ UNCHANGED <<g, eta>>
Spec == Init /\ [][Next]_<<g, eta, k>>
S == Scores(Num(g), Model(eta))
Scaled == [i \in 1..2 |-> RAdd(R1, RMul(RInt(k), RSub(RInt(g[i]), R1)))]
Shifted == Model([c \in 1..3 |-> <<eta[c][1] + k, eta[c][2] + k>>])
BestExists == Decidable(S) /\ \E c \in 1..3 : Best(S, c)
OnlyProportions == VClose(S, Scores(Scaled, Model(eta)), RDec(1, -12))
ShiftInvariant ==
    LET T == Scores(Num(g), Shifted) IN
    \A c \in 1..3 : VClose(T, [d \in 1..3 |-> RAdd(S[d], RInt(k))], RDec(1, -12))
=============================================================================
