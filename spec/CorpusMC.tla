------------------------------- MODULE CorpusMC -------------------------------
EXTENDS Corpus
CONSTANT N
VARIABLES ys, ix, n
Cols == [i \in 1..N |-> <<i, i % 2>>]
Init == ys \in [1..N -> -1..1] /\ ix = InOrder(N) /\ n = 0
Shuffle == n < 2 /\ n' = n + 1 /\ ix' \in Permutations(N) /\ UNCHANGED ys
Spec == Init /\ [][Shuffle]_<<ys, ix, n>>
Docs == [i \in 1..N |-> At(Cols, ys, ix, i)]
Original == [i \in 1..N |-> At(Cols, ys, InOrder(N), i)]
KeepsDocuments == SameBag(Docs, Original)
PriorsAreFrequencies ==
    /\ \A c \in 0..1 : Prior(ys, c) = RFrac(Cardinality({i \in 1..N : Docs[i].y = c}), N)
    /\ RLe(RAdd(Prior(ys, 0), Prior(ys, 1)), R1)
=============================================================================
