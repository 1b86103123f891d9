------------------------------- MODULE StartMC -------------------------------
(* All small corpora: a seeded topic is a proper distribution that gives    *)
(* every word some probability, more to the more frequent one, and a topic  *)
(* seeded without documents is uniform.                                     *)
EXTENDS Start
CONSTANTS MaxCount, MaxDraws
VARIABLES docs, t
Cnt == 0..MaxCount
Corpora == UNION {[1..D -> {<<a, b, c>> : a \in Cnt, b \in Cnt, c \in {0, 1}}] : D \in 1..2}
Init == docs \in Corpora /\ t \in UNION {Draws(Len(docs), n) : n \in 0..MaxDraws}
Next == UNCHANGED <<docs, t>>
Spec == Init /\ [][Next]_<<docs, t>>
Topic == Seeded(docs, t, 3)
IsProper == Proper(Topic, RDec(1, -12))
Smoothed == \A w \in 1..3 : RLt(R0, Topic[w])
MoreForMore == \A v, w \in 1..3 : Counts(docs, t, 3)[v] < Counts(docs, t, 3)[w] => RLt(Topic[v], Topic[w])
NothingIsUniform == (\A i \in 1..Len(t) : t[i] = 0) => \A w \in 1..3 : Topic[w] = RFrac(1, 3)
AllDraws == \A n \in 0..4 : \A d \in Draws(3, n) : Total(d) = n
=============================================================================
