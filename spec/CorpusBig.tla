------------------------------ MODULE CorpusBig -------------------------------
(***************************************************************************)
(* Corpora too large to be written out document by document: document d    *)
(* is a function of its number, a reading is the sequence of numbers.      *)
(***************************************************************************)
EXTENDS Corpus, Json, IOUtils, TLC
VARIABLES tr, status, why
Traces == ndJsonDeserialize(IOEnv.TRACE)
Label(d) == IF d % 11 = 0 THEN (d % 5) - 1 ELSE 1
(* a permutation of 1..n: n entries that between them are all of 1..n *)
Permutes(s, n) == Len(s) = n /\ {s[i] : i \in 1..n} = 1..n
Verdict(t) ==
    LET ys == TLCEval([d \in 1..t.n |-> Label(d)])
        bad(o, first) ==
            IF o.n # t.n THEN "size"
            ELSE IF ~Permutes(o.ids, t.n) \/ o.words # 1 THEN "not a permutation of the documents"
            ELSE IF first /\ \E i \in 1..t.n : o.ids[i] # i THEN "not in the order given before any shuffle"
            ELSE IF t.labelled = 1 /\ \E i \in 1..t.n : o.ys[i] # ys[o.ids[i]] THEN "a document with another's label"
            ELSE IF o.twin # 1 THEN "same seed, other order"
            ELSE "ok"
        b1 == TLCEval(bad(t.orders[1], TRUE))
        b2 == TLCEval(bad(t.orders[2], FALSE))
        b3 == TLCEval(bad(t.orders[3], FALSE))
    IN IF b1 # "ok" THEN b1 ELSE IF b2 # "ok" THEN b2 ELSE IF b3 # "ok" THEN b3
       ELSE IF t.orders[2].ids = t.orders[1].ids \/ t.orders[3].ids = t.orders[2].ids THEN "shuffling did nothing"
       ELSE IF \E k \in 1..Len(t.priors) : ~RClose(t.priors[k], Prior(ys, k - 2), RDec(1, -6)) THEN "prior"
       ELSE "ok"
Init == tr \in 1..Len(Traces) /\ status = "new" /\ why = "-"
Next == /\ status = "new" /\ UNCHANGED tr
        /\ LET v == TLCEval(Verdict(Traces[tr])) IN why' = v /\ status' = IF v = "ok" THEN "ok" ELSE "rejected"
Spec == Init /\ [][Next]_<<tr, status, why>>
Accepted == status # "rejected"
=============================================================================
