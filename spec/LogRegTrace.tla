----------------------------- MODULE LogRegTrace -----------------------------
(* Values and gradients returned by the real losses. *)
EXTENDS LogReg, Json, IOUtils, TLC
VARIABLES tr, pos, status, why
vars == <<tr, pos, status, why>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-"
P == [Z |-> T.Z, Var |-> T.Var, y |-> T.y, second |-> T.second, L |-> T.L,
      w |-> IF T.weighted = 1 THEN T.w ELSE DefaultWeights(T.y)]
(* the scores, and with them the rounding, grow with the parameters *)
Largest(e) == RMaxOf([j \in 1..Len(e) |-> RMaxOf([i \in 1..Len(e[j]) |-> RAbs(e[j][i])])])
Rel == RMul(IF T.f = 1 THEN RDec(1, -4) ELSE RDec(1, -10), RAdd(R1, RMul(RFrac(1, 10), Largest(T.calls[pos].eta))))
CallOK == LET c == T.calls[pos] IN
    IF c.op = "value" THEN RClose(c.v, Value(P, c.eta), Rel)
    ELSE LET g == Gradient(P, c.eta)
             m == RMul(Rel, RAdd(R1, Largest(g)))
         IN  Len(c.g) = Len(g) /\ \A j \in 1..Len(g) : VNear(c.g[j], g[j], Rel, RMul(m, RInt(Len(T.y))))
Next == /\ status = "ok" /\ pos <= Len(T.calls)
        /\ IF CallOK THEN pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
           ELSE status' = "rejected" /\ why' = T.calls[pos].op /\ UNCHANGED <<tr, pos>>
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
