------------------------------- MODULE LogReg --------------------------------
(***************************************************************************)
(* The objectives that class parameters are fitted to.  A problem p has    *)
(* the documents' mixtures Z (sequence of vectors), their variance terms   *)
(* Var (sequence of matrices, only for the second order approximation),    *)
(* their labels y (from 0), the class weights w and the penalty L.  eta is *)
(* a sequence of class columns.                                            *)
(***************************************************************************)
EXTENDS Real64, FiniteSets, TLC

RECURSIVE IMaxOf(_, _)
IMaxOf(s, n) == IF n = 1 THEN s[1] ELSE LET m == IMaxOf(s, n - 1) IN IF s[n] > m THEN s[n] ELSE m
CountOf(y, c) == Cardinality({d \in 1..Len(y) : y[d] = c})

(* weights when none are given: documents / (classes * documents of the class) *)
DefaultWeights(y) ==
    LET C == IMaxOf(y, Len(y)) + 1 IN
    [c \in 1..C |-> IF CountOf(y, c - 1) = 0 THEN R0 ELSE RFrac(Len(y), CountOf(y, c - 1) * C)]

Score(p, eta, d) == TLCEval([c \in 1..Len(eta) |-> RDot(eta[c], p.Z[d])])
(* v^T M v and ((M + M^T)/2) v, M a sequence of columns *)
Quad(M, v) == RSum([j \in 1..Len(v) |-> RMul(v[j], RDot(M[j], v))])
SymMul(M, v) == [i \in 1..Len(v) |-> RMul(RFrac(1, 2), RAdd(RDot(M[i], v), RDot(Row(M, i), v)))]

(* factor of class c in the normaliser of document d *)
Factor(p, eta, d, c) == IF p.second = 1 THEN RAdd(R1, RMul(RFrac(1, 2), Quad(p.Var[d], eta[c]))) ELSE R1

(* TLC evaluates an argument whenever it is used: these are evaluated once *)
Once(Op(_, _), a, b) == CHOOSE r \in {Op(x, y) : x \in {a}, y \in {b}} : TRUE

ValueOf(p, eta) ==
    LET Doc(d) ==
          LET t  == Score(p, eta, d)
              mx == RMaxOf(t)
              z  == RSum([c \in 1..Len(eta) |-> RMul(RExp(RSub(t[c], mx)), Factor(p, eta, d, c))])
          IN RMul(p.w[p.y[d] + 1], RSub(t[p.y[d] + 1], RAdd(mx, RLog(z))))
        norm == RSum([c \in 1..Len(eta) |-> RDot(eta[c], eta[c])])
    IN RAdd(RNeg(RSum([d \in 1..Len(p.y) |-> Doc(d)])), RMul(RMul(RFrac(1, 2), p.L), norm))

GradientOf(p, eta) ==
    LET K == Len(eta[1])
        C == Len(eta)
        G(d) ==
          LET t  == Score(p, eta, d)
              mx == RMaxOf(t)
              e  == TLCEval([c \in 1..C |-> RExp(RSub(t[c], mx))])
              f  == TLCEval([c \in 1..C |-> Factor(p, eta, d, c)])
              z  == RSum([c \in 1..C |-> RMul(e[c], f[c])])
              wd == p.w[p.y[d] + 1]
              sv == TLCEval([c \in 1..C |-> IF p.second = 1 THEN SymMul(p.Var[d], eta[c]) ELSE Zeros(K)])
          IN [c \in 1..C |-> [i \in 1..K |->
                RMul(wd, RSub(RDiv(RMul(e[c], RAdd(RMul(f[c], p.Z[d][i]), sv[c][i])), z),
                              IF c = p.y[d] + 1 THEN p.Z[d][i] ELSE R0))]]
        gs == TLCEval([d \in 1..Len(p.y) |-> G(d)])
    IN TLCEval([c \in 1..C |-> [i \in 1..K |->
          RAdd(RSum([d \in 1..Len(p.y) |-> gs[d][c][i]]), RMul(p.L, eta[c][i]))]])
Value(p, eta) == Once(ValueOf, p, eta)
Gradient(p, eta) == Once(GradientOf, p, eta)
=============================================================================
