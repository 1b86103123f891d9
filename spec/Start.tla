-------------------------------- MODULE Start --------------------------------
(***************************************************************************)
(* The model a training starts from.  docs: sequence of word count         *)
(* sequences; matrices are sequences of columns, beta[w][k].               *)
(***************************************************************************)
EXTENDS Real64, Sequences, FiniteSets, TLC

(* how often each of D documents is drawn in N draws *)
RECURSIVE Draws(_, _)
Draws(D, N) == IF D = 0 THEN (IF N = 0 THEN {<<>>} ELSE {})
               ELSE IF D = 1 THEN {<<N>>}
               ELSE UNION {{Append(t, n) : t \in Draws(D - 1, N - n)} : n \in 0..N}
RECURSIVE Dot(_, _, _)
Dot(docs, t, w) == IF t = <<>> THEN 0
                   ELSE LET i == Len(t) IN t[i] * docs[i][w] + Dot(docs, SubSeq(t, 1, i - 1), w)
(* the smoothed counts of a topic seeded with the draw t, and its words' probabilities *)
Counts(docs, t, V) == [w \in 1..V |-> 1 + Dot(docs, t, w)]
RECURSIVE Total(_)
Total(c) == IF c = <<>> THEN 0 ELSE c[Len(c)] + Total(SubSeq(c, 1, Len(c) - 1))
Seeded(docs, t, V) == LET c == TLCEval(Counts(docs, t, V))  s == TLCEval(Total(c)) IN [w \in 1..V |-> RFrac(c[w], s)]
Proper(row, tol) == (\A w \in 1..Len(row) : RLe(R0, row[w])) /\ VFinite(row) /\ RNear(RSum(row), R1, tol, R0)
=============================================================================
