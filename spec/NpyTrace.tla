------------------------------ MODULE NpyTrace --------------------------------
(***************************************************************************)
(* Recorded writes and reads.                                              *)
(*  mode "write": type, fortran, shape, data, bytes (what the writer wrote),*)
(*     back: [threw, rows, cols, m, pos, fortran, shape] read back         *)
(*  mode "read": bytes, arrays (what the bytes were made to denote), reads *)
(*     outcomes in order, pos stream positions after each                  *)
(*  mode "bigread": head (the header's bytes), array, threw, rows, cols,   *)
(*     pos, samples <<row, column, element>>; byte k of the data is Byte(k)*)
(*  mode "reject": bytes, outcome for each prefix length in cuts, or for   *)
(*     the whole input                                                     *)
(***************************************************************************)
EXTENDS Npy, Json, IOUtils, TLC
VARIABLES tr, pos, status, why
vars == <<tr, pos, status, why>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ status = "ok" /\ why = "-"

(* the sequence of writes to one stream *)
RECURSIVE Concat(_, _)
Concat(s, n) == IF n = 0 THEN <<>> ELSE Concat(s, n - 1) \o s[n].bytes
W == T.writes[pos]
AsArray(w) == [type |-> T.type, big |-> FALSE, fortran |-> w.fortran = 1, shape |-> w.shape]
WriteVerdict ==
    IF ~WellFormed(W.bytes, T.type, W.fortran = 1, W.shape, W.data) THEN "not a well formed npy array of the data"
    ELSE IF W.back.threw = 1 THEN "cannot be read back"
    ELSE IF W.back.left # 0 THEN "stream not left after the array"
    ELSE IF W.back.shape # W.shape THEN "shape"
    ELSE IF ~Denotes(W.bytes, 0, AsArray(W), W.back.m) THEN "elements"
    ELSE "ok"

(* sizes judged by their header only; the harness compared the data *)
B == T.big[pos]
BigVerdict ==
    IF ~(/\ SubSeq(B.head, 1, 6) = Magic /\ B.head[7] = 1 /\ B.head[8] = 0
         /\ LET n == HeaderLen(B.head) IN
            /\ (10 + n) % 16 = 0 /\ Len(B.head) = 10 + n /\ B.head[10 + n] = NL
            /\ B.total = 10 + n + Product(B.shape) * TypeSize(T.type)
            /\ NoSpaces(SubSeq(B.head, 11, 9 + n)) \in Dictionaries(Little, T.type, B.fortran = 1, B.shape)) THEN "large array is malformed"
    ELSE IF B.data_same # 1 THEN "large array: data differ"
    ELSE IF B.back_same # 1 THEN "large array: reads back differently"
    ELSE "ok"

A == T.arrays[pos]
R == T.reads[pos]
ArrayOf(a) == [type |-> a.type, big |-> a.big = 1, fortran |-> a.fortran = 1, shape |-> a.shape]
RECURSIVE Start(_)
Start(k) == IF k = 1 THEN 0 ELSE EndOf(T.bytes, Start(k - 1), ArrayOf(T.arrays[k - 1]))
ReadVerdict ==
    LET from == Start(pos)
        a == ArrayOf(A) IN
    IF ~Says(T.bytes, from, a) THEN "the generated input is wrong"
    ELSE IF R.threw = 1 THEN "a well formed array is rejected"
    ELSE IF R.shape # a.shape \/ R.fortran # A.fortran THEN "shape or order"
    ELSE IF ~Denotes(T.bytes, from, a, R.m) THEN "decoded elements"
    ELSE IF R.pos # EndOf(T.bytes, from, a) THEN "stream not left after the array"
    ELSE "ok"
(* large arrays, whose data are a known function of the position and whose
   entries are sampled *)
Byte(k) == (31 * k + 17 * (k \div 256) + 5 * (k \div 65536) + 7) % 256
ElementOf(a, k) ==      \* element k, from 1, least significant byte first
    LET z == TypeSize(a.type) IN
    [i \in 1..z |-> Byte((k - 1) * z + (IF a.big THEN z - i ELSE i - 1))]
BigReadVerdict ==
    LET a == ArrayOf(T.array) IN
    IF ~Says(T.head, 0, a) THEN "the generated input is wrong"
    ELSE IF T.threw = 1 THEN "a well formed large array is rejected"
    ELSE IF T.rows # a.shape[1] \/ T.cols # Cols(a.shape) THEN "large array: shape"
    ELSE IF \E s \in 1..Len(T.samples) :
              T.samples[s][3] # ElementOf(a, EntryIndex(a.shape, a.fortran, T.samples[s][1], T.samples[s][2]))
         THEN "large array: decoded elements"
    ELSE IF T.pos # EndOf(T.head, 0, a) THEN "stream not left after the large array"
    ELSE "ok"
(* prefixes shorter than the array, wrong types, versions, missing files *)
RejectVerdict == IF \A k \in 1..Len(T.outcomes) : T.outcomes[k] = 1 THEN "ok" ELSE "unusable input is not rejected"

Steps == CASE T.mode = "write" -> Len(T.writes) [] T.mode = "big" -> Len(T.big)
           [] T.mode = "read" -> Len(T.arrays) [] OTHER -> 1
Verdict == CASE T.mode = "write" -> WriteVerdict [] T.mode = "big" -> BigVerdict
             [] T.mode = "read" -> ReadVerdict
             [] T.mode = "bigread" -> BigReadVerdict [] OTHER -> RejectVerdict
Next == /\ status = "ok" /\ pos <= Steps
        /\ LET v == Verdict IN
           IF v = "ok" THEN pos' = pos + 1 /\ UNCHANGED <<tr, status, why>>
           ELSE status' = "rejected" /\ why' = v /\ UNCHANGED <<tr, pos>>
Spec == Init /\ [][Next]_vars
Accepted == status # "rejected"
=============================================================================
