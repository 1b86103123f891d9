------------------------------- MODULE SemiEMC --------------------------------
(* Histories of documents and epochs over the specified step. *)
EXTENDS SemiE, FiniteSets
CONSTANT MaxOps
Labels == {-2, -1, 0, 1}
VARIABLES n, inner, outer, epochs, docs
vars == <<n, inner, outer, epochs, docs>>
Init == n = 0 /\ inner = [sup |-> <<>>, uns |-> <<>>] /\ outer = <<>> /\ epochs = [sup |-> 0, uns |-> 0] /\ docs = <<>>
Doc == \E y \in Labels, k \in 0..1 :
    /\ n < MaxOps /\ n' = n + 1 /\ docs' = Append(docs, y)
    /\ LET t == Target(y) IN inner' = [inner EXCEPT ![t] = Append(@, [y |-> y, id |-> n])]
                             /\ outer' = IF k = 1 THEN Append(outer, n) ELSE outer
    /\ UNCHANGED epochs
Epoch == n < MaxOps /\ n' = n + 1 /\ epochs' = [s \in {"sup", "uns"} |-> epochs[s] + 1] /\ UNCHANGED <<inner, outer, docs>>
Next == Doc \/ Epoch
Spec == Init /\ [][Next]_vars
Routed == /\ \A i \in 1..Len(inner.sup) : inner.sup[i].y >= 0
          /\ \A i \in 1..Len(inner.uns) : inner.uns[i].y < 0
          /\ Len(inner.sup) + Len(inner.uns) = Len(docs)
Once == \A i, j \in 1..Len(outer) : i # j => outer[i] # outer[j]
BothEpochs == epochs.sup = epochs.uns
=============================================================================
