------------------------------ MODULE CorpusTrace -----------------------------
(* Histories of calls on the real corpora. *)
EXTENDS Corpus, Json, IOUtils, TLC
VARIABLES tr, pos, status, why,
          cur,      \* the order of documents last seen, <<>> if shuffled since
          old       \* order before the last shuffle
vars == <<tr, pos, status, why, cur, old>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Op == T.ops[pos]
N == Len(T.docs)
Unknown == <<[w |-> <<>>, y |-> -999]>>
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-" /\ cur = T.docs /\ old = Unknown
Reject(w) == status' = "rejected" /\ why' = w /\ UNCHANGED <<tr, pos, cur, old>>
Go == pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
Distinct == Cardinality({T.docs[i] : i \in 1..N}) = N
Large == N >= 20 /\ Distinct
Read == Op.op = "read" /\
    IF ~SameBag(Op.docs, T.docs) THEN Reject("not a permutation of the documents")
    ELSE IF Op.repeat # 1 THEN Reject("reading again gives another document")
    ELSE IF cur # Unknown /\ Op.docs # cur THEN Reject("reading or asking changed the order")
    ELSE IF Large /\ cur = Unknown /\ old # Unknown /\ Op.docs = old THEN Reject("shuffling did nothing")
    ELSE IF T.labelled = 1 /\ Op.owner # 1 THEN Reject("document does not belong to its corpus")
    ELSE Go /\ cur' = Op.docs /\ UNCHANGED old
Shuffle == Op.op = "shuffle" /\ Go /\ cur' = Unknown /\ old' = (IF cur = Unknown THEN old ELSE cur)
Twin == Op.op = "twin" /\ IF Op.docs # cur THEN Reject("same seed, other order") ELSE Go /\ UNCHANGED <<cur, old>>
Other == Op.op = "other" /\ IF Large /\ Op.docs = cur THEN Reject("the seed has no influence") ELSE Go /\ UNCHANGED <<cur, old>>
Size == Op.op = "size" /\ IF Op.n # N THEN Reject("size") ELSE Go /\ UNCHANGED <<cur, old>>
PriorOp == Op.op = "prior" /\
    IF ~RClose(Op.p, Prior([i \in 1..N |-> T.docs[i].y], Op.c), RDec(1, -6)) THEN Reject("prior")
    ELSE Go /\ UNCHANGED <<cur, old>>
Held == Op.op = "held" /\ IF Op.same # 1 THEN Reject("a document changed after it was read") ELSE Go /\ UNCHANGED <<cur, old>>
Next == status = "ok" /\ pos <= Len(T.ops) /\ (Read \/ Shuffle \/ Twin \/ Other \/ Size \/ PriorOp \/ Held)
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
