--------------------------------- MODULE Npy ----------------------------------
(***************************************************************************)
(* The npy format, version 1, byte by byte.  Bytes are integers 0..255.    *)
(*   magic, version | header length (2 bytes, little endian) | header |    *)
(*   data.  The header is a Python dictionary in numpy's own key order,    *)
(* padded with spaces and ended by a newline.                              *)
(* An array is [type, big, fortran, shape, data]: the data are its bytes   *)
(* as they lie in the file.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Magic == <<147, 78, 85, 77, 80, 89>>
NL == 10
SP == 32
Comma == 44
Zero == 48

KDescr    == <<123, 39, 100, 101, 115, 99, 114, 39, 58, 39>>   \* {'descr':'
KFortran  == <<39, 44, 39, 102, 111, 114, 116, 114, 97, 110, 95, 111, 114, 100, 101, 114, 39, 58>>   \* ','fortran_order':
KTrue     == <<84, 114, 117, 101>>   \* True
KFalse    == <<70, 97, 108, 115, 101>>   \* False
KShape    == <<44, 39, 115, 104, 97, 112, 101, 39, 58, 40>>   \* ,'shape':(
KEnd      == <<41, 125>>   \* )}
KEnd2     == <<41, 44, 125>>   \* ),}

Types == {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"}
TypeName(t) ==
    CASE t = "i1" -> <<105, 49>>
      [] t = "i2" -> <<105, 50>>
      [] t = "i4" -> <<105, 52>>
      [] t = "i8" -> <<105, 56>>
      [] t = "u1" -> <<117, 49>>
      [] t = "u2" -> <<117, 50>>
      [] t = "u4" -> <<117, 52>>
      [] t = "u8" -> <<117, 56>>
      [] t = "f4" -> <<102, 52>>
      [] t = "f8" -> <<102, 56>>
TypeSize(t) ==
    CASE t \in {"i1", "u1"} -> 1
      [] t \in {"i2", "u2"} -> 2
      [] t \in {"i4", "u4", "f4"} -> 4
      [] OTHER -> 8

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<Zero + n>> ELSE Digits(n \div 10) \o <<Zero + (n % 10)>>
RECURSIVE Joined(_)
Joined(shape) == IF shape = <<>> THEN <<>>
                 ELSE IF Len(shape) = 1 THEN Digits(shape[1])
                 ELSE Digits(shape[1]) \o <<Comma>> \o Joined(Tail(shape))
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))

(* the dictionaries that denote (order mark, type, fortran, shape), spaces left
   out: trailing commas are optional except in one-element tuples *)
Dictionary(mark, type, fortran, shape, comma, end) ==
    KDescr \o <<mark>> \o TypeName(type) \o KFortran \o (IF fortran THEN KTrue ELSE KFalse) \o KShape
    \o Joined(shape) \o (IF comma THEN <<Comma>> ELSE <<>>) \o end
Dictionaries(mark, type, fortran, shape) ==
    { Dictionary(mark, type, fortran, shape, c, e) :
      c \in (IF Len(shape) = 1 THEN {TRUE} ELSE {TRUE, FALSE}), e \in {KEnd, KEnd2} }
Little == 60     \* <
Big    == 62     \* >
NoOrder == 124   \* |
MarkOf(type, big) == IF TypeSize(type) = 1 THEN {NoOrder, Little, Big} ELSE IF big THEN {Big} ELSE {Little}

NoSpaces(s) == SelectSeq(s, LAMBDA c : c # SP)

(* ------------------------------- writing ------------------------------ *)
HeaderLen(bytes) == bytes[9] + 256 * bytes[10]
(* bytes are a well formed array of this type, order, shape and data, and
   nothing else *)
WellFormed(bytes, type, fortran, shape, data) ==
    /\ Len(bytes) >= 10
    /\ SubSeq(bytes, 1, 6) = Magic /\ bytes[7] = 1 /\ bytes[8] = 0
    /\ LET n == HeaderLen(bytes) IN
       /\ Len(bytes) = 10 + n + Len(data)
       /\ (10 + n) % 16 = 0
       /\ bytes[10 + n] = NL
       /\ NoSpaces(SubSeq(bytes, 11, 9 + n)) \in
            UNION {Dictionaries(m, type, fortran, shape) : m \in MarkOf(type, FALSE)}
       /\ SubSeq(bytes, 11 + n, Len(bytes)) = data
    /\ Len(data) = Product(shape) * TypeSize(type)

(* ------------------------------- reading ------------------------------ *)
(* element number k (from 1) of the data at offset, least significant byte first *)
RECURSIVE Reverse(_)
Reverse(s) == IF s = <<>> THEN <<>> ELSE Reverse(Tail(s)) \o <<Head(s)>>
Element(bytes, offset, type, big, k) ==
    LET z == TypeSize(type)
        e == SubSeq(bytes, offset + (k - 1) * z + 1, offset + k * z)
    IN IF big THEN Reverse(e) ELSE e
Cols(shape) == Product(Tail(shape))
(* matrix entry (r, c), counted from 0, as the array's own order has it *)
EntryIndex(shape, fortran, r, c) == IF fortran THEN c * shape[1] + r + 1 ELSE r * Cols(shape) + c + 1
(* the array a at position from of bytes is what a reader must deliver; a is
   [type, big, fortran, shape] and res the matrix as rows of elements *)
Denotes(bytes, from, a, res) ==
    LET n == bytes[from + 9] + 256 * bytes[from + 10]
        off == from + 10 + n
    IN  /\ Len(res) = a.shape[1]
        /\ \A r \in 1..Len(res) :
             /\ Len(res[r]) = Cols(a.shape)
             /\ \A c \in 1..Len(res[r]) :
                  res[r][c] = Element(bytes, off, a.type, a.big, EntryIndex(a.shape, a.fortran, r - 1, c - 1))
EndOf(bytes, from, a) ==
    from + 10 + bytes[from + 9] + 256 * bytes[from + 10] + Product(a.shape) * TypeSize(a.type)
(* what the header at from says; only headers in numpy's layout are judged *)
Says(bytes, from, a) ==
    LET n == bytes[from + 9] + 256 * bytes[from + 10] IN
    /\ SubSeq(bytes, from + 1, from + 6) = Magic /\ bytes[from + 7] = 1
    /\ NoSpaces(SubSeq(bytes, from + 11, from + 9 + n)) \in
         UNION {Dictionaries(m, a.type, a.fortran, a.shape) : m \in MarkOf(a.type, a.big)}
=============================================================================
