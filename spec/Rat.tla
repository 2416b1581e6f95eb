-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* A rational is the pair <<n, d>> in lowest terms, n \in Int, d > 0.  The *)
(* operators with the suffix Def are the mathematical definitions over the *)
(* (unbounded) integers of TLA+.  TLC's integers have 32 bits, so TLC      *)
(* evaluates the operators without the suffix with the Java class          *)
(* vp.RatOverrides (BigInteger), in which both components are represented  *)
(* by a tuple of limbs that only the overrides look into; RPair maps that  *)
(* representation back to a pair of integers.  RatTest.tla checks the      *)
(* overrides against the definitions with TLC.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE GCDDef(_, _)
GCDDef(a, b) == IF b = 0 THEN a ELSE GCDDef(b, a % b)
AbsDef(i) == IF i < 0 THEN -i ELSE i

\* the rational n/d in lowest terms
NormDef(n, d) ==
    LET g == GCDDef(AbsDef(n), AbsDef(d))
        s == IF d < 0 THEN -1 ELSE 1
    IN  <<(s * n) \div g, (s * d) \div g>>

RIntDef(i) == <<i, 1>>
RFracDef(n, d) == NormDef(n, d)
RAddDef(a, b) == NormDef(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSubDef(a, b) == NormDef(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMulDef(a, b) == NormDef(a[1] * b[1], a[2] * b[2])
RDivDef(a, b) == NormDef(a[1] * b[2], a[2] * b[1])      \* b # 0
RLeDef(a, b) == a[1] * b[2] <= b[1] * a[2]
RLtDef(a, b) == a[1] * b[2] < b[1] * a[2]
RECURSIVE RPowDef(_, _)
RPowDef(a, k) == IF k = 0 THEN <<1, 1>> ELSE RMulDef(a, RPowDef(a, k - 1))
RFloorDef(a) == a[1] \div a[2]
RNumerDef(a) == <<a[1], 1>>

\* a machine number (t[1] * 2^27 + t[2]) * 2^t[3], as written in traces
RFloatDef(t) ==
    LET m == t[1] * 134217728 + t[2]
    IN  IF t[3] >= 0 THEN NormDef(m * 2^t[3], 1) ELSE NormDef(m, 2^(-t[3]))

\* the sequence in increasing order
RECURSIVE RSortedDef(_)
RSortedDef(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET r == RSortedDef(Tail(s))
             k == CHOOSE i \in 0..Len(r) : /\ i > 0 => RLtDef(r[i], s[1])
                                           /\ i < Len(r) => RLeDef(s[1], r[i + 1])
         IN  SubSeq(r, 1, k) \o <<s[1]>> \o SubSeq(r, k + 1, Len(r))

\* floor(sqrt(a) * 2^p) / 2^p, for a >= 0
RSqrtDef(a, p) ==
    LET q == (a[1] * 4^p) \div a[2]
        r == CHOOSE i \in 0..q : i * i <= q /\ (i + 1) * (i + 1) > q
    IN  NormDef(r, 2^p)

RInt(i) == RIntDef(i)
RFrac(n, d) == RFracDef(n, d)
RFloat(t) == RFloatDef(t)
RAdd(a, b) == RAddDef(a, b)
RSub(a, b) == RSubDef(a, b)
RMul(a, b) == RMulDef(a, b)
RDiv(a, b) == RDivDef(a, b)
RLe(a, b) == RLeDef(a, b)
RLt(a, b) == RLtDef(a, b)
RPow(a, k) == RPowDef(a, k)
RNumer(a) == RNumerDef(a)          \* the numerator, as a rational
RPair(a) == a
RFloor(a) == RFloorDef(a)          \* as an Int; only for small rationals
RSqrt(a, p) == RSqrtDef(a, p)
RSorted(s) == RSortedDef(s)

RZero == RInt(0)
ROne == RInt(1)
RNeg(a) == RSub(RZero, a)
RAbs(a) == IF RLt(a, RZero) THEN RNeg(a) ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
\* 2^-p
RPow2Neg(p) == RPow(RFrac(1, 2), p)
=============================================================================
