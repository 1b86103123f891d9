-------------------------------- MODULE EStep --------------------------------
(***************************************************************************)
(* The variational expectation step of one document, for all five models.  *)
(* A problem p is a record with the document (X: word counts, y: label),   *)
(* the model (alpha, beta: sequence of word columns, eta: sequence of      *)
(* class columns) and the step's settings.  The state of the step is the   *)
(* iterate [gamma, phi, tau]; one transition computes the next iterate.    *)
(* The code evaluates exp with a table; ExpErr bounds the error of the     *)
(* logarithm of what it returns, and Exact/slack pairs carry that bound.   *)
(***************************************************************************)
EXTENDS Real64, SequencesExt, FiniteSets, TLC

Half == RFrac(1, 2)
ExpErr(x) == RMul(RDec(1, -3), RMax(R1, RAbs(x)))    \* 2^-10 of the argument, halved until below one
VMaxAbs(v) == RMaxOf([i \in 1..Len(v) |-> RAbs(v[i])])

Words(p) == {n \in 1..p.V : p.X[n] > 0}
NumWords(p) == FoldLeft(LAMBDA a, b : a + b, 0, p.X)
EtaRow(p, i) == [c \in 1..p.C |-> p.eta[c][i]]
EtaY(p) == p.eta[p.y + 1]
Psi(g) == TLCEval([i \in 1..Len(g) |-> RDigamma(g[i])])

(* weights b * exp(x), shifted by the largest exponent, normalised *)
Softmax(b, x) ==
    LET pos == {i \in 1..Len(x) : RLt(R0, b[i])}
        mx  == RMaxOf([i \in 1..Len(x) |-> IF i \in pos THEN x[i] ELSE RInt(-1000000)])
        w   == TLCEval([i \in 1..Len(x) |-> IF i \in pos THEN RMul(b[i], RExp(RSub(x[i], mx))) ELSE R0])
        s   == RSum(w)
    IN  TLCEval([i \in 1..Len(x) |-> RDiv(w[i], s)])

(* got is what `exact` becomes when every log weight is off by at most err *)
Within(got, exact, err, abs) ==
    LET up == RExp(RMul(RInt(2), err)) IN
    \A i \in 1..Len(exact) :
       /\ RLe(RSub(RDiv(exact[i], up), abs), got[i])
       /\ RLe(got[i], RAdd(RMul(exact[i], up), abs))

-----------------------------------------------------------------------------
(* The initial iterate *)
InitGamma(p) == [i \in 1..p.K |-> RAdd(p.alpha[i], RFrac(NumWords(p), p.K))]
InitPhi(p)   == [n \in 1..p.V |-> [i \in 1..p.K |-> RFrac(1, p.K)]]

(* gamma of an iterate, given its phi *)
GammaOf(p, phi) ==
    [i \in 1..p.K |-> RAdd(p.alpha[i], RSum([n \in 1..p.V |->
        IF p.X[n] = 0 THEN R0 ELSE RMul(RInt(p.X[n]), phi[n][i])]))]

(* Exponents of the closed form updates: a sequence per word *)
UnsupExp(p, st) == LET ps == Psi(st.gamma)
                       er == TLCEval(ExpErr(VMaxAbs(ps)))
                   IN [x |-> [n \in 1..p.V |-> ps], err |-> [n \in 1..p.V |-> er]]

Weight(p) == IF p.decay = 1 THEN RPow(p.c, RInt(p.epochs)) ELSE p.c
FastExp(p, st) ==
    LET N   == NumWords(p)
        zb  == TLCEval([i \in 1..p.K |-> RSum([n \in 1..p.V |-> IF p.X[n] = 0 THEN R0
                                  ELSE RMul(RFrac(p.X[n], N), st.phi[n][i])])])
        ez  == TLCEval([c \in 1..p.C |-> RDot(p.eta[c], zb)])
        sm  == Softmax([c \in 1..p.C |-> R1], ez)
        me  == RMaxOf([c \in 1..p.C |-> RMaxOf(p.eta[c])])
        es  == TLCEval([c \in 1..p.C |-> IF RLt(R0, me) THEN [i \in 1..p.K |-> RDiv(p.eta[c][i], me)] ELSE p.eta[c]])
        ps  == Psi(st.gamma)
        w   == Weight(p)
        x   == TLCEval([i \in 1..p.K |-> RAdd(ps[i], RMul(w, RSub(es[p.y + 1][i],
                                    RDot([c \in 1..p.C |-> es[c][i]], sm))))])
        e2  == RSub(RExp(RMul(RInt(2), ExpErr(VMaxAbs(ez)))), R1)
        me2 == RMaxOf([c \in 1..p.C |-> VMaxAbs(es[c])])
        err == TLCEval(RAdd(ExpErr(VMaxAbs(x)), RMul(RMul(RAbs(w), me2), e2)))
    IN  [x |-> [n \in 1..p.V |-> x], err |-> [n \in 1..p.V |-> err]]

MultiExp(p, st) ==
    LET ps == Psi(st.gamma)
        t2 == RAdd(RDigamma(RSum(st.gamma)), R1)
        x  == TLCEval([i \in 1..p.K |-> RSub(RAdd(RMul(p.ew, RLog(EtaY(p)[i])), ps[i]), t2)])
        er == TLCEval(ExpErr(VMaxAbs(x)))
    IN  [x |-> [n \in 1..p.V |-> x], err |-> [n \in 1..p.V |-> er]]

CorrExp(p, st) ==
    LET ps == Psi(st.gamma)
        le == TLCEval([i \in 1..p.K |-> RLog(EtaY(p)[i])])
        e1 == TLCEval(ExpErr(VMaxAbs(ps)))
        ml == TLCEval(VMaxAbs(le))
    IN  [x   |-> TLCEval([n \in 1..p.V |-> [i \in 1..p.K |-> RAdd(ps[i], RMul(le[i], st.tau[n]))]]),
         err |-> TLCEval([n \in 1..p.V |-> RAdd(e1, ExpErr(RMul(ml, st.tau[n])))])]

TauOf(p, phi) ==
    LET le == TLCEval([i \in 1..p.K |-> RLog(EtaY(p)[i])])
        x  == TLCEval([n \in 1..p.V |-> RDot(phi[n], le)])
    IN  [tau |-> Softmax([n \in 1..p.V |-> R1], x), err |-> ExpErr(VMaxAbs(x))]

ClosedForm(p, st) ==
    CASE p.kind = "unsup" -> UnsupExp(p, st)
      [] p.kind = "fast"  -> FastExp(p, st)
      [] p.kind = "multi" -> MultiExp(p, st)
      [] p.kind = "corr"  -> CorrExp(p, st)

(* sLDA: one sweep over the words of the document, a fixed point per word *)
Ratio(p, n) == RFrac(p.X[n], NumWords(p))
ExpEta(p, n) == LET r == TLCEval(Ratio(p, n)) IN TLCEval([c \in 1..p.C |-> [i \in 1..p.K |-> RExp(RMul(r, p.eta[c][i]))]])
SupSweep(p, st) ==
    LET ws == SetToSortSeq(Words(p), LAMBDA a, b : a < b)
        E  == TLCEval([n \in Words(p) |-> ExpEta(p, n)])
        P0 == TLCEval([c \in 1..p.C |-> FoldLeft(LAMBDA acc, n : RMul(acc, RDot(E[n][c], st.phi[n])), R1, ws)])
        Fix(q, n, gamma, phin, err) ==
            LET h  == TLCEval([i \in 1..p.K |-> RSum([c \in 1..p.C |-> RMul(E[n][c][i], q[c])])])
                ps == Psi(gamma)
                r  == TLCEval(Ratio(p, n))
                Step(s, k) ==
                    LET t == RDiv(RDiv(R1, RDot(h, s.f)), RInt(p.X[n]))
                        x == TLCEval([i \in 1..p.K |-> RSub(RAdd(ps[i], RMul(r, EtaY(p)[i])), RMul(h[i], t))])
                    IN TLCEval([f |-> Softmax(p.beta[n], x), e |-> RMax(s.e, ExpErr(VMaxAbs(x)))])
            IN FoldLeft(Step, [f |-> phin, e |-> err], [k \in 1..p.fpi |-> k])
        Word(s, n) ==
            LET q  == TLCEval([c \in 1..p.C |-> RDiv(s.P[c], RDot(E[n][c], s.phi[n]))])
                fx == Fix(q, n, s.gamma, s.phi[n], s.err)
            IN TLCEval([phi   |-> [s.phi EXCEPT ![n] = fx.f],
                        gamma |-> VAdd(s.gamma, VScale(RInt(p.X[n]), VSub(fx.f, s.phi[n]))),
                        P     |-> [c \in 1..p.C |-> RMul(q[c], RDot(E[n][c], fx.f))],
                        err   |-> fx.e])
    IN FoldLeft(Word, [phi |-> st.phi, gamma |-> st.gamma, P |-> P0, err |-> R0], ws)

(* The next iterate computed by the specification itself *)
NextIterate(p, st) ==
    IF p.kind = "sup" THEN LET s == SupSweep(p, st) IN [gamma |-> s.gamma, phi |-> s.phi, tau |-> <<>>]
    ELSE IF p.kind = "fast" /\ NumWords(p) = 0 THEN st
    ELSE LET f   == ClosedForm(p, st)
             phi == [n \in 1..p.V |-> IF VMaxAbs(p.beta[n]) = R0 THEN p.beta[n] ELSE Softmax(p.beta[n], f.x[n])]
         IN [gamma |-> GammaOf(p, phi), phi |-> phi,
             tau |-> IF p.kind = "corr" THEN TauOf(p, phi).tau ELSE <<>>]

(* ... and whether an observed iterate is the successor of st *)
PhiFollows(p, st, nx, abs) ==
    IF NumWords(p) = 0 THEN TRUE
    ELSE IF p.kind = "sup"
      THEN LET s == SupSweep(p, st)
               e == RMul(RInt(6), s.err)
           IN \A n \in Words(p) : Within(nx.phi[n], s.phi[n], e, RAdd(abs, RDec(1, -4)))
      ELSE LET f == ClosedForm(p, st) IN
           /\ \A n \in Words(p) : Within(nx.phi[n], Softmax(p.beta[n], f.x[n]), f.err[n], abs)
           /\ p.kind = "corr" =>
                LET t == TauOf(p, nx.phi) IN Within(nx.tau, t.tau, t.err, abs)

Distribution(v, tol) == /\ \A i \in 1..Len(v) : RLe(R0, v[i])
                        /\ RClose(RSum(v), R1, tol)

(* mean absolute change of gamma *)
Change(a, b) == RDiv(RSum([i \in 1..Len(a) |-> RAbs(RSub(a[i], b[i]))]), RInt(Len(a)))
Converged(old, new, tol) == RLt(Change(old, new), tol)

-----------------------------------------------------------------------------
(* The evidence lower bound of a document at an iterate *)
Tiny == RDec(1, -44)
VLGamma(v) == RSum([i \in 1..Len(v) |-> RLGamma(v[i])])
UnsupBound(p, st) ==
    LET t1 == LET s == RDigamma(RSum(st.gamma)) IN TLCEval([i \in 1..p.K |-> RSub(RDigamma(st.gamma[i]), s)])
        OverWords(F(_, _)) == RSum([n \in 1..p.V |-> IF p.X[n] = 0 THEN R0
                                     ELSE RMul(RInt(p.X[n]), RSum([i \in 1..p.K |-> F(n, i)]))])
        theta  == RAdd(RSum([i \in 1..p.K |-> RMul(RSub(p.alpha[i], R1), t1[i])]),
                       RSub(RLGamma(RSum(p.alpha)), VLGamma(p.alpha)))
        z      == OverWords(LAMBDA n, i : RMul(st.phi[n][i], t1[i]))
        w      == OverWords(LAMBDA n, i : RMul(st.phi[n][i], RLog(RAdd(p.beta[n][i], Tiny))))
        htheta == RAdd(RNeg(RSum([i \in 1..p.K |-> RMul(RSub(st.gamma[i], R1), t1[i])])),
                       RSub(VLGamma(st.gamma), RLGamma(RSum(st.gamma))))
        hz     == RNeg(OverWords(LAMBDA n, i : RMul(st.phi[n][i], RLog(RAdd(st.phi[n][i], Tiny)))))
    IN RSum(<<theta, z, w, htheta, hz>>)

(* E[log p(y | z)] of sLDA and fsLDA, bounded by Jensen's inequality *)
LogNorm(p, st) ==
    LET E == TLCEval([n \in Words(p) |-> ExpEta(p, n)])
        ws == SetToSeq(Words(p))
    IN RLog(RSum([c \in 1..p.C |-> FoldLeft(LAMBDA acc, n : RMul(acc, RDot(E[n][c], st.phi[n])), R1, ws)]))
ClassScore(p, st) == RSum([n \in 1..p.V |-> IF p.X[n] = 0 THEN R0
                                             ELSE RMul(Ratio(p, n), RDot(EtaY(p), st.phi[n]))])
EtaPrior(p) ==
    RMul(RFrac(1, p.size),
         RAdd(RMul(RSub(p.mu, R1), RSum([c \in 1..p.C |-> RSum([i \in 1..p.K |-> RLog(p.eta[c][i])])])),
              RSub(RLGamma(RMul(RInt(p.C), p.mu)), RMul(RInt(p.C), RLGamma(p.mu)))))
LogEtaScore(p, st, tauw) ==
    LET le == TLCEval([i \in 1..p.K |-> RLog(EtaY(p)[i])]) IN
    RSum([n \in 1..p.V |-> IF p.X[n] = 0 THEN R0
             ELSE RMul(RMul(RInt(p.X[n]), tauw[n]), RDot(st.phi[n], le))])

Bound(p, st) ==
    CASE p.kind = "unsup" -> UnsupBound(p, st)
      [] p.kind \in {"fast", "sup"} -> RAdd(UnsupBound(p, st), RSub(ClassScore(p, st), LogNorm(p, st)))
      [] p.kind = "multi" ->
            RSum(<<UnsupBound(p, st), LogEtaScore(p, st, [n \in 1..p.V |-> R1]),
                   RNeg(RMul(RInt(NumWords(p) - 1), RLog(RFloat(RFrac(p.ycount, p.size))))), EtaPrior(p)>>)
      [] p.kind = "corr" ->
            RSum(<<UnsupBound(p, st),
                   RNeg(RSum([n \in 1..p.V |-> RMul(RMul(st.tau[n], RInt(p.X[n])), RLog(RAdd(st.tau[n], Tiny)))])),
                   LogEtaScore(p, st, st.tau), RNeg(RLog(RInt(NumWords(p)))), EtaPrior(p)>>)
(* the table-based exponential enters the bound of fast and sup once per word *)
BoundErr(p) ==
    IF p.kind \in {"fast", "sup"}
    THEN RSum([n \in 1..p.V |-> IF p.X[n] = 0 THEN R0
                 ELSE ExpErr(RMul(Ratio(p, n), RMaxOf([c \in 1..p.C |-> VMaxAbs(p.eta[c])])))])
    ELSE R0
=============================================================================
