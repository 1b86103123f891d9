-------------------------------- MODULE Infer --------------------------------
(***************************************************************************)
(* What a trained model says about documents.  G is the matrix transform   *)
(* returns, one column per document; model is [alpha, beta, eta].          *)
(***************************************************************************)
EXTENDS Real64, TLC

(* the expected topic proportions: normalised (gamma - alpha) *)
Proportions(g, alpha) ==
    LET d == TLCEval(VSub(g, alpha))
        s == RSum(d)
    IN  [i \in 1..Len(d) |-> RDiv(d[i], s)]
(* one score per class *)
Scores(g, model) ==
    LET z == TLCEval(Proportions(g, model.alpha)) IN
    [c \in 1..Len(model.eta) |-> RDot(model.eta[c], z)]
(* c (from 1) is a class with the highest score *)
Best(scores, c) == c \in 1..Len(scores) /\ \A d \in 1..Len(scores) : RLe(scores[d], scores[c])
(* scores that can be compared *)
Decidable(scores) == VFinite(scores) /\ Len(scores) > 0
Words(x) == \E j \in 1..Len(x) : x[j] > 0
=============================================================================
