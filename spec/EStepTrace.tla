----------------------------- MODULE EStepTrace ------------------------------
(***************************************************************************)
(* Recorded expectation steps.  Every line of $TRACE holds a problem, its  *)
(* iterates its[1..m+1] (runs limited to 0..m iterations), complete runs   *)
(* and repetitions.  The machine walks the iterates (C18), then re-walks   *)
(* them for every run to find where it has to stop (C19) and looks at what *)
(* the run published (C22).                                                *)
(***************************************************************************)
EXTENDS EStep, Json, IOUtils

CONSTANT Focus
VARIABLES tr, pos,     \* trace and phase position
          it,          \* iterate the walk has reached
          status, why
vars == <<tr, pos, it, status, why>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
M == T.m
Abs == IF T.f = 1 THEN RDec(2, -4) ELSE RDec(1, -8)
Tol == IF T.f = 1 THEN RDec(2, -4) ELSE RDec(1, -9)
Tight == IF T.f = 1 THEN RDec(1, -5) ELSE RDec(1, -11)
G(p, cond) == p \notin Focus \/ cond
Phases == IF T.mode = "often" THEN 1 ELSE 1 + Len(T.runs) + Len(T.reps)

Init == tr \in 1..Len(Traces) /\ pos = 1 /\ it = 0 /\ status = "ok" /\ why = "-"

St(k) == T.its[k + 1]
WellFormed(st) ==
    /\ Len(st.gamma) = T.K /\ Len(st.phi) = T.V
    /\ \A n \in Words(T) : Len(st.phi[n]) = T.K /\ VFinite(st.phi[n]) /\ Distribution(st.phi[n], Tol)
    /\ VNear(st.gamma, GammaOf(T, st.phi), Tol, RMul(Tol, RInt(1 + NumWords(T))))
    /\ NumWords(T) = 0 => VClose(st.gamma, T.alpha, Tight)

SameResult(a, b) == VClose(a.gamma, b.gamma, Tight) /\ \A n \in Words(T) : VClose(a.phi[n], b.phi[n], Tight)
                    /\ (T.kind = "corr" => VClose(a.tau, b.tau, Tight))

(* phase 1: the iterates *)
StepOK(k) ==
    /\ G("C18", T.same = 1)
    /\ G("C18", WellFormed(St(k)))
    /\ G("C19", T.mode = "slow" /\ k > 0 => PhiFollows(T, St(k - 1), St(k), Abs))   \* k iterations were done
    /\ G("C18", IF k = 0 THEN VClose(St(0).gamma, InitGamma(T), Tol) ELSE PhiFollows(T, St(k - 1), St(k), Abs))

(* later phases: complete runs.  From iterate k the run must go on ... *)
Run == T.runs[pos - 1]
GoesOn(k) == k < Run.maxit /\ ~(k > 0 /\ Converged(St(k - 1).gamma, St(k).gamma, Run.tol))
(* the bound is -infinity when a word is explained by a topic without it; what
   is reported then is not specified *)
BoundDefined == /\ NumWords(T) > 0
                /\ \A n \in Words(T), i \in 1..T.K :
                      T.beta[n][i] = R0 => RLe(Run.res.phi[n][i], RDec(1, -12))
(* The bound is a sum of terms as large as the number of words times its
   logarithm, which may cancel almost completely *)
Cancels == RMul(RMul(IF T.f = 1 THEN RDec(5, -7) ELSE RDec(1, -15), RInt(NumWords(T) + T.K)), RAdd(RInt(20), RLog(RInt(NumWords(T) + T.K))))
(* ... or end with it *)
EventOK(k) ==
    /\ Len(Run.ev) = 1
    /\ Run.lik = R0 => RIsNaN(Run.ev[1])
    /\ ~RIsNaN(Run.ev[1]) /\ BoundDefined =>
          RNear(Run.ev[1], Bound(T, Run.res), IF T.f = 1 THEN RDec(1, -3) ELSE RDec(1, -7),
                RAdd(RAdd(BoundErr(T), Cancels), IF T.f = 1 THEN RDec(1, -2) ELSE RDec(1, -7)))
    /\ (Run.lik = R1 /\ BoundDefined) => ~RIsNaN(Run.ev[1])
EndOK(k) == /\ G("C19", SameResult(Run.res, St(k)))
            /\ G("C22", EventOK(k))
            /\ G("C22", \A j \in 1..Len(T.runs) :
                            T.runs[j].maxit = Run.maxit /\ T.runs[j].tol = Run.tol => SameResult(Run.res, T.runs[j].res))

(* the likelihood is reported for the given fraction of the documents: n
   independent decisions stay within six standard deviations of that *)
OftenOK == /\ T.got + T.nan = T.n
           /\ LET d == RSub(RInt(T.got), RMul(RInt(T.n), T.lik))
                  v == RMul(RMul(RInt(T.n), T.lik), RSub(R1, T.lik))
              IN RLe(RMul(d, d), RMul(RInt(36), v))

Rep == T.reps[pos - 1 - Len(T.runs)]

Reject(msg) == status' = "rejected" /\ why' = msg /\ UNCHANGED <<tr, pos, it>>
Next ==
    /\ status = "ok" /\ pos <= Phases
    /\ IF T.mode = "often" THEN
          IF G("C22", OftenOK) THEN pos' = 2 /\ UNCHANGED <<tr, it, status, why>> ELSE Reject("how often a likelihood is reported")
       ELSE IF pos = 1 THEN
          IF ~StepOK(it) THEN Reject("iterate")
          ELSE /\ it' = IF it = M THEN 0 ELSE it + 1
               /\ pos' = IF it = M THEN 2 ELSE 1
               /\ UNCHANGED <<tr, status, why>>
       ELSE IF pos <= 1 + Len(T.runs) THEN
          IF GoesOn(it) THEN it' = it + 1 /\ UNCHANGED <<tr, pos, status, why>>
          ELSE IF EndOK(it) THEN it' = 0 /\ pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
          ELSE Reject("run")
       ELSE IF G("C18", SameResult(Rep, St(M))) THEN pos' = pos + 1 /\ UNCHANGED <<tr, it, status, why>>
       ELSE Reject("repetition")

Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
