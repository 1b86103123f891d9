------------------------------ MODULE LogRegMC -------------------------------
(* The gradient the specification states is the derivative of the value it states. *)
EXTENDS LogReg, TLC
VARIABLES prob, eta, done
A == RFrac(3, 10)
B == RFrac(7, 10)
Vecs == {<<R1, R0>>, <<A, B>>, <<B, A>>}
Vars == {<<<<A, R0>>, <<B, A>>>>}
Ys == {<<0, 1>>, <<1, 1>>, <<0, 2>>, <<2, 1>>}
Etas == {<<<<a, b>>, <<RNeg(b), c>>, <<c, a>>>> : a \in {R0, R1}, b \in {A, RInt(-2)}, c \in {RFrac(-3, 2), R0}}
Init == /\ prob \in {[Z |-> <<u, v>>, Var |-> <<m, m>>, y |-> y, second |-> s, L |-> l, w |-> w] :
                       u \in Vecs, v \in Vecs, m \in Vars, y \in Ys, s \in {0, 1}, l \in {R0, A},
                       w \in {DefaultWeights(<<0, 1, 2>>), <<R1, RInt(2), A>>}}
        /\ eta \in Etas /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<prob, eta>>
Spec == Init /\ [][Next]_<<prob, eta, done>>
H == RDec(1, -5)
Shift(c, i, h) == [eta EXCEPT ![c][i] = RAdd(@, h)]
IsDerivative ==
    LET g == Gradient(prob, eta) IN
    \A c \in 1..3, i \in 1..2 :
       RClose(RDiv(RSub(Value(prob, Shift(c, i, H)), Value(prob, Shift(c, i, RNeg(H)))), RMul(RInt(2), H)),
              g[c][i], RDec(1, -8))
(* without a penalty the first order loss is non-negative *)
NonNegative == prob.second = 0 => RLe(R0, Value(prob, eta))
BalancedWeights == \A y \in Ys : LET w == DefaultWeights(y) IN
    RClose(RSum([d \in 1..Len(y) |-> w[y[d] + 1]]),
           RFrac(Len(y) * Cardinality({y[d] : d \in 1..Len(y)}), IMaxOf(y, Len(y)) + 1), RDec(1, -12))
=============================================================================
