------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* IEEE 754 double precision numbers.  A number is the pair <<hi, lo>> of  *)
(* the two 32-bit halves of its bit pattern (TLC integers are 32 bits      *)
(* wide), so equality of values is bit-identity.  The elementary           *)
(* operations are evaluated by TLC through the Java class Real64; every    *)
(* formula of the system is written in TLA+ on top of them.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Bits == -2147483647..2147483647
Undef == CHOOSE x : x \notin Nat   \* bodies below are overridden, never used

RInt(n)      == Undef              \* the number n
RFrac(a, b)  == Undef              \* a / b of integers
RDec(m, e)   == Undef              \* m * 10^e
RAdd(a, b)   == Undef
RSub(a, b)   == Undef
RMul(a, b)   == Undef
RDiv(a, b)   == Undef
RNeg(a)      == Undef
RAbs(a)      == Undef
RExp(a)      == Undef
RLog(a)      == Undef
RPow(a, b)   == Undef
RFloat(a)    == Undef              \* rounded to single precision
RDigamma(a)  == Undef
RLGamma(a)   == Undef
RMax(a, b)   == Undef
RMin(a, b)   == Undef
RLt(a, b)    == Undef
RLe(a, b)    == Undef
REq(a, b)    == Undef
RIsNaN(a)    == Undef
RIsFinite(a) == Undef
RClose(a, b, tol)     == Undef     \* |a-b| <= tol * max(1,|a|,|b|)
RNear(a, b, rel, abs) == Undef     \* |a-b| <= rel*max(|a|,|b|) + abs
RSum(s)      == Undef              \* sum of a sequence
RMaxOf(s)    == Undef
RDot(s, t)   == Undef
RShow(a)     == Undef

R0 == <<0, 0>>
R1 == <<1072693248, 0>>

(* Vectors are sequences of numbers, matrices sequences of columns. *)
RVec(F(_), n)     == [i \in 1..n |-> F(i)]
VClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i], tol)
MClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], tol)
VNear(a, b, rel, abs) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RNear(a[i], b[i], rel, abs)
MNear(a, b, rel, abs) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VNear(a[i], b[i], rel, abs)
VAdd(a, b)   == [i \in 1..Len(a) |-> RAdd(a[i], b[i])]
VSub(a, b)   == [i \in 1..Len(a) |-> RSub(a[i], b[i])]
VScale(c, a) == [i \in 1..Len(a) |-> RMul(c, a[i])]
MAdd(a, b)   == [j \in 1..Len(a) |-> VAdd(a[j], b[j])]
MSub(a, b)   == [j \in 1..Len(a) |-> VSub(a[j], b[j])]
MScale(c, a) == [j \in 1..Len(a) |-> VScale(c, a[j])]
Row(m, i)    == [j \in 1..Len(m) |-> m[j][i]]
Transpose(m) == [i \in 1..Len(m[1]) |-> Row(m, i)]
VFinite(a)   == \A i \in 1..Len(a) : RIsFinite(a[i])
MFinite(m)   == \A j \in 1..Len(m) : VFinite(m[j])
Zeros(n)     == [i \in 1..n |-> R0]
=============================================================================
