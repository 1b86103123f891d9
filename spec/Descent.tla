------------------------------- MODULE Descent --------------------------------
(***************************************************************************)
(* Line searches and gradient descent on objectives                        *)
(*     f(x) = x'Ax/2 - b'x + q * sum x_i^4 + s * sum exp(x_i)              *)
(* given as o = [A, b, q, s] (A symmetric, a sequence of columns).         *)
(***************************************************************************)
EXTENDS Real64

Half == RFrac(1, 2)
Ex(o, a) == IF o.s = R0 THEN R0 ELSE RMul(o.s, RExp(a))
P2(a) == RMul(a, a)
F(o, x) ==
    RAdd(RSub(RMul(Half, RSum([j \in 1..Len(x) |-> RMul(x[j], RDot(o.A[j], x))])), RDot(o.b, x)),
         RSum([i \in 1..Len(x) |-> RAdd(RMul(o.q, P2(P2(x[i]))), Ex(o, x[i]))]))
DF(o, x) ==
    [i \in 1..Len(x) |-> RAdd(RSub(RDot(o.A[i], x), o.b[i]),
                              RAdd(RMul(RMul(RInt(4), o.q), RMul(x[i], P2(x[i]))), Ex(o, x[i])))]

At(x, d, a)    == [i \in 1..Len(x) |-> RSub(x[i], RMul(a, d[i]))]
StepSize(ls, n) == RPow(ls.tau, RInt(n))
(* excess of f over the Armijo line at step size a *)
Gap(o, ls, x, g, d, a) == RSub(F(o, At(x, d, a)), RSub(F(o, x), RMul(a, RMul(ls.beta, RDot(g, d)))))

(* exact line searches, used by the model *)
RECURSIVE ArmijoFrom(_, _, _, _, _, _)
ArmijoFrom(o, ls, x, g, d, n) ==
    IF RLe(Gap(o, ls, x, g, d, StepSize(ls, n)), R0) \/ n > 80 THEN n ELSE ArmijoFrom(o, ls, x, g, d, n + 1)
LineStep(o, ls, x, g, d) ==
    IF ls.kind = "constant" THEN At(x, d, ls.a) ELSE At(x, d, StepSize(ls, ArmijoFrom(o, ls, x, g, d, 0)))

(* what a real line search may do, given rounding *)
RECURSIVE ArmijoAllows(_, _, _, _, _, _, _, _, _)
ArmijoAllows(o, ls, x, g, d, x1, rel, slack, n) ==
    LET a == StepSize(ls, n)
        gap == Gap(o, ls, x, g, d, a)
    IN  \/ RLe(gap, slack) /\ VNear(x1, At(x, d, a), rel, RMul(rel, RMin(R1, a)))
        \/ n < 600 /\ RLe(RNeg(slack), gap) /\ ArmijoAllows(o, ls, x, g, d, x1, rel, slack, n + 1)
Allowed(o, ls, x, g, d, x1, rel, slack) ==
    IF ls.kind = "constant" THEN VNear(x1, At(x, d, ls.a), rel, rel)
    ELSE ArmijoAllows(o, ls, x, g, d, x1, rel, slack, 0)
=============================================================================
