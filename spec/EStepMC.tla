------------------------------- MODULE EStepMC -------------------------------
(* The specified expectation step itself, run from every small problem. *)
EXTENDS EStep
CONSTANTS MaxCount, MaxIt
VARIABLES prob, st, it, old

Num == [a |-> RFrac(1, 4), b |-> RFrac(3, 4), c |-> RFrac(1, 10), d |-> RFrac(9, 10)]
Betas == { <<<<Num.a, Num.b>>, <<Num.b, Num.a>>>>, <<<<Num.c, Half>>, <<Num.d, Half>>>>,
           <<<<R0, R1>>, <<R1, R0>>>> }
Etas(kind) == IF kind \in {"multi", "corr"} THEN { <<<<Num.a, Num.d>>, <<Num.b, Num.c>>>> }
              ELSE { <<<<R1, RNeg(R1)>>, <<RNeg(Half), RInt(2)>>>>, <<<<R0, R0>>, <<R0, R0>>>> }
Problems ==
    UNION { { [kind |-> k, K |-> 2, V |-> 2, C |-> 2, X |-> x, y |-> yy, alpha |-> <<a, Half>>, beta |-> b, eta |-> e,
               c |-> Half, decay |-> dc, mu |-> RInt(2), ew |-> R1, fpi |-> 2, epochs |-> 1, size |-> 4, ycount |-> 2] :
              x \in {<<i, j>> : i, j \in 0..MaxCount}, yy \in {0, 1}, a \in {Half, RFrac(1, 5)}, b \in Betas,
              e \in Etas(k), dc \in IF k = "fast" THEN {0, 1} ELSE {0} }
            : k \in {"unsup", "fast", "sup", "multi", "corr"} }

Init == /\ prob \in Problems /\ it = 0
        /\ st = [gamma |-> InitGamma(prob), phi |-> InitPhi(prob),
                 tau |-> IF prob.kind = "corr" THEN <<Half, Half>> ELSE <<>>]
        /\ old = Zeros(2)
Next == /\ it < MaxIt /\ ~(it > 0 /\ Converged(old, st.gamma, RDec(1, -6)))
        /\ old' = st.gamma /\ st' = NextIterate(prob, st) /\ it' = it + 1 /\ UNCHANGED prob
Spec == Init /\ [][Next]_<<prob, st, it, old>>

T12 == RDec(1, -12)
ProperPhi == \A n \in Words(prob) : Distribution(st.phi[n], T12)
GammaIsAlphaPlusCounts == VClose(st.gamma, GammaOf(prob, st.phi), T12)
EmptyGivesAlpha == NumWords(prob) = 0 => VClose(st.gamma, prob.alpha, T12)
Explained == \A n \in Words(prob), i \in 1..2 : prob.beta[n][i] = R0 => st.phi[n][i] = R0
(* coordinate ascent: the bound the events report never falls (unsupervised) *)
BoundRises == [][prob.kind = "unsup" /\ Explained => RLe(Bound(prob, st), RAdd(Bound(prob, st'), RDec(1, -9)))]_<<prob, st, it, old>>
=============================================================================
