------------------------------ MODULE TrainOrder ------------------------------
(***************************************************************************)
(* Training as a function of the data alone.  Each pass hands the          *)
(* documents to W workers; a worker computes the statistics of a document  *)
(* from the model of that pass, the statistics are accumulated in the      *)
(* order in which they happen to arrive, and the maximization turns the    *)
(* accumulated statistics into the next model.  Whatever the number of     *)
(* workers, their assignment and the order of arrival, the model after     *)
(* pass p is the one a single worker gets by going through the documents   *)
(* in order.  Real arithmetic is exact here; TrainTrace allows for the     *)
(* rounding of real runs.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Docs, Workers, Passes, Mod
VARIABLES pass, todo, busy, arrived, acc, model
vars == <<pass, todo, busy, arrived, acc, model>>

Stat(d, m) == (d * d + m * d + 1) % Mod       \* any function of document and model
Maximize(a, m) == (2 * a + m) % Mod           \* any function of the sums and the model

RECURSIVE Total(_, _)
Total(S, m) == IF S = {} THEN 0 ELSE LET d == CHOOSE x \in S : TRUE IN (Stat(d, m) + Total(S \ {d}, m)) % Mod
RECURSIVE Sequential(_)
Sequential(p) == IF p = 0 THEN 1 ELSE LET m == Sequential(p - 1) IN Maximize(Total(Docs, m), m)

Init == pass = 0 /\ todo = Docs /\ busy = [w \in Workers |-> 0] /\ arrived = {} /\ acc = 0 /\ model = 1
Take(w) == busy[w] = 0 /\ \E d \in todo :
    busy' = [busy EXCEPT ![w] = d] /\ todo' = todo \ {d} /\ UNCHANGED <<pass, arrived, acc, model>>
(* the statistics are computed and published; nothing but the document and the model enters *)
Publish(w) == busy[w] # 0 /\ arrived' = arrived \cup {<<busy[w], Stat(busy[w], model)>>}
    /\ busy' = [busy EXCEPT ![w] = 0] /\ UNCHANGED <<pass, todo, acc, model>>
Accumulate == \E a \in arrived : acc' = (acc + a[2]) % Mod /\ arrived' = arrived \ {a} /\ UNCHANGED <<pass, todo, busy, model>>
Maximization == todo = {} /\ arrived = {} /\ (\A w \in Workers : busy[w] = 0) /\ pass < Passes
    /\ model' = Maximize(acc, model) /\ acc' = 0 /\ pass' = pass + 1
    /\ todo' = (IF pass + 1 < Passes THEN Docs ELSE {}) /\ UNCHANGED <<busy, arrived>>
Next == (\E w \in Workers : Take(w) \/ Publish(w)) \/ Accumulate \/ Maximization
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SameAsSequential == model = Sequential(pass)
Terminates == <>(pass = Passes)
=============================================================================
