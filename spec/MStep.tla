-------------------------------- MODULE MStep --------------------------------
(***************************************************************************)
(* The maximization steps.  A document d handed to a step is               *)
(*   [X, y, phi, gamma, tau]  (phi: one column of topic weights per word). *)
(* A model is [alpha, beta, eta]; beta has one column per word, eta one    *)
(* column per class.  kind is one of                                       *)
(*   unsup, sup, fast, semi, multi, corr   (batch)   and   online.         *)
(***************************************************************************)
EXTENDS LogReg

Topics(model) == Len(model.alpha)
WordsOf(d)    == RSum([j \in 1..Len(d.X) |-> RInt(d.X[j])])

(* expected word counts of one document, per word a column over topics *)
Counts(kind, d) ==
    TLCEval([j \in 1..Len(d.X) |-> VScale(IF kind = "corr" THEN RMul(RInt(d.X[j]), d.tau[j]) ELSE RInt(d.X[j]), d.phi[j])])
(* expected topic counts of one document *)
TopicCounts(kind, d, K) == LET c == TLCEval(Counts(kind, d)) IN TLCEval([i \in 1..K |-> RSum(Row(c, i))])

RowSums(m, K) == [i \in 1..K |-> RSum(Row(m, i))]
NormaliseRows(m, K) == LET r == TLCEval(RowSums(m, K)) IN TLCEval([j \in 1..Len(m) |-> [i \in 1..K |-> RDiv(m[j][i], r[i])]])
Zero(K, n) == [j \in 1..n |-> Zeros(K)]

(* ------------------------- batch statistics --------------------------- *)
AddCounts(kind, b, d)   == TLCEval(MAdd(b, Counts(kind, d)))
AddClass(kind, h, d, K) ==
    IF kind \in {"multi", "corr"}
    THEN [h EXCEPT ![d.y + 1] = VAdd(@, TopicCounts(kind, d, K))]
    ELSE h

(* the class probabilities of the multinomial and correspondence models *)
SmoothedEta(h, mu, K) ==
    NormaliseRows(TLCEval([c \in 1..Len(h) |-> [i \in 1..K |-> RSub(RAdd(h[c][i], mu), R1)]]), K)
(* expected log probability of the labels of the documents ds *)
LogPy(kind, ds, eta, K) ==
    RSum([q \in 1..Len(ds) |->
        LET t == TopicCounts(kind, ds[q], K) IN
        RSum([i \in 1..K |-> RMul(t[i], RLog(eta[ds[q].y + 1][i]))])])

(* ---------------- what the class parameters are fitted to ------------- *)
Labelled(kind, d) == kind # "semi" \/ d.y >= 0
ZBar(d, alpha) ==
    LET g == TLCEval(VSub(d.gamma, alpha))
        n == TLCEval(WordsOf(d))
    IN  IF n = R0 THEN g ELSE [i \in 1..Len(g) |-> RDiv(g[i], n)]
VarZ(d, K) ==
    LET c == TLCEval(Counts("sup", d))
        n == WordsOf(d)
        q == IF n = R0 THEN R1 ELSE RMul(n, n)
        r == TLCEval([i \in 1..K |-> Row(c, i)])
    IN  [j \in 1..K |-> [i \in 1..K |-> RDiv(RDot(r[i], r[j]), q)]]
Problem(kind, ds, alpha, L) ==
    LET y == [q \in 1..Len(ds) |-> ds[q].y] IN
    [Z |-> TLCEval([q \in 1..Len(ds) |-> ZBar(ds[q], alpha)]),
     Var |-> IF kind = "sup" THEN TLCEval([q \in 1..Len(ds) |-> VarZ(ds[q], Len(alpha))]) ELSE <<>>,
     y |-> y, second |-> IF kind = "sup" THEN 1 ELSE 0, L |-> L,
     w |-> TLCEval(DefaultWeights(y))]
Weighted(p, w) == [p EXCEPT !.w = w]

(* -------------------- gradient descent with Armijo search -------------- *)
Move(x, a, g) == TLCEval(MSub(x, MScale(a, g)))
Sq(g) == RSum([c \in 1..Len(g) |-> RDot(g[c], g[c])])
(* f(x - a g) <= f(x) - a beta g.g ; Slope = beta g.g *)
ArmijoGap(f1, f0, a, slope) == RSub(f1, RSub(f0, RMul(a, slope)))
(* goes on after iteration k with value v, the previous value being prev *)
Improvement(prev, v) == RDiv(RSub(prev, v), v)

(* ------------------------------ online -------------------------------- *)
OnlineBeta(old, b, w, K) ==
    LET n == NormaliseRows(b, K) IN
    [j \in 1..Len(b) |-> [i \in 1..K |-> RAdd(RMul(w, old[j][i]), RMul(RSub(R1, w), n[j][i]))]]
OnlineVelocity(v, g, momentum, rate) == TLCEval(MSub(TLCEval(MScale(momentum, v)), TLCEval(MScale(rate, g))))
=============================================================================
