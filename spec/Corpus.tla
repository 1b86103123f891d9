-------------------------------- MODULE Corpus --------------------------------
(***************************************************************************)
(* A corpus: columns cols (words), labels ys, a current order ix which is  *)
(* a permutation of the documents, drawn by shuffles.                      *)
(***************************************************************************)
EXTENDS Real64, FiniteSets

InOrder(n)      == [i \in 1..n |-> i]
Permutations(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
(* document at position i *)
At(cols, ys, ix, i) == [w |-> cols[ix[i]], y |-> ys[ix[i]]]
Occurrences(s, d)   == Cardinality({i \in 1..Len(s) : s[i] = d})
SameBag(s, t)       == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Occurrences(s, s[i]) = Occurrences(t, s[i])
ClassCount(ys, c)   == Cardinality({i \in 1..Len(ys) : ys[i] = c})
Prior(ys, c)        == IF c < 0 \/ Len(ys) = 0 THEN R0 ELSE RFrac(ClassCount(ys, c), Len(ys))
=============================================================================
