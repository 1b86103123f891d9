-------------------------------- MODULE NpyMC ---------------------------------
(* Writer and reader as specified, for all small arrays: what is written is
   read back, and prefixes say nothing. *)
EXTENDS Npy, TLC
CONSTANT MaxDim
VARIABLES arr
Shapes == {<<a>> : a \in 0..MaxDim} \cup {<<a, b>> : a, b \in 0..MaxDim} \cup {<<a, b, c>> : a, b, c \in 0..2}
Pad(n) == [i \in 1..((16 - ((n + 11) % 16)) % 16) |-> SP]
Data(a) == [k \in 1..Product(a.shape) * TypeSize(a.type) |-> (k * 7 + 3) % 256]
Write(a) == LET d == Dictionary(IF TypeSize(a.type) = 1 THEN NoOrder ELSE IF a.big THEN Big ELSE Little,
                                a.type, a.fortran, a.shape, Len(a.shape) = 1, KEnd)
                h == d \o Pad(Len(d)) \o <<NL>>
            IN  Magic \o <<1, 0>> \o <<Len(h) % 256, Len(h) \div 256>> \o h \o Data(a)
Read(bytes, a) == [r \in 1..a.shape[1] |-> [c \in 1..Cols(a.shape) |->
    LET off == 10 + bytes[9] + 256 * bytes[10] IN
    Element(bytes, off, a.type, a.big, EntryIndex(a.shape, a.fortran, r - 1, c - 1))]]
Init == arr \in [type : {"i1", "u2", "i4", "f8"}, big : BOOLEAN, fortran : BOOLEAN, shape : Shapes]
Spec == Init /\ [][UNCHANGED arr]_arr
WritesWellFormed == ~arr.big => WellFormed(Write(arr), arr.type, arr.fortran, arr.shape, Data(arr))
ReadsBack == LET b == Write(arr) IN Says(b, 0, arr) /\ EndOf(b, 0, arr) = Len(b) /\ Denotes(b, 0, arr, Read(b, arr))
(* every element is read exactly once *)
Bijective == \A r1, r2 \in 0..arr.shape[1] - 1, c1, c2 \in 0..Cols(arr.shape) - 1 :
    EntryIndex(arr.shape, arr.fortran, r1, c1) = EntryIndex(arr.shape, arr.fortran, r2, c2) => r1 = r2 /\ c1 = c2
InData == \A r \in 0..arr.shape[1] - 1, c \in 0..Cols(arr.shape) - 1 :
    EntryIndex(arr.shape, arr.fortran, r, c) \in 1..Product(arr.shape)
=============================================================================
