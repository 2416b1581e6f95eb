------------------------------ MODULE RatTest ------------------------------
(* The Java overrides of Rat agree with the TLA+ definitions, on every pair *)
(* of small rationals and small exponents.                                  *)
EXTENDS Rat, TLC
CONSTANT M
Small == { NormDef(n, d) : n \in -M..M, d \in 1..M }
R(p) == RFrac(p[1], p[2])
VARIABLE a
Init == a \in Small
Next == UNCHANGED a
Binary == \A b \in Small :
    /\ RPair(RAdd(R(a), R(b))) = RAddDef(a, b) /\ RPair(RSub(R(a), R(b))) = RSubDef(a, b)
    /\ RPair(RMul(R(a), R(b))) = RMulDef(a, b)
    /\ b # <<0, 1>> => RPair(RDiv(R(a), R(b))) = RDivDef(a, b)
    /\ RLe(R(a), R(b)) = RLeDef(a, b) /\ RLt(R(a), R(b)) = RLtDef(a, b)
    /\ (R(a) = R(b)) = (a = b)
    /\ \A c \in {<<a[1], 2>>, <<1, b[2]>>, <<-1, 1>>} :
          LET s == <<NormDef(c[1], c[2]), a, b, <<0, 1>>, a>>
              t == RSorted([i \in 1..5 |-> R(s[i])])
          IN  [i \in 1..5 |-> RPair(t[i])] = RSortedDef(s)
    \* field laws on the override results, through values beyond 32 bits
    /\ LET x == RPow(RAdd(R(a), RInt(1000000007)), 5)
           y == RPow(RSub(R(b), RFrac(1, 999983)), 7)
       IN  /\ RSub(RAdd(x, y), y) = x /\ RMul(x, y) = RMul(y, x)
           /\ RDiv(RMul(x, y), y) = x /\ (RLt(x, y) <=> ~RLe(y, x))
Unary ==
    /\ RPair(R(a)) = a /\ RPair(RFrac(a[1] * 6, a[2] * 6)) = a
    /\ RPair(RInt(a[1])) = RIntDef(a[1])
    /\ \A k \in 0..3 : RPair(RPow(R(a), k)) = RPowDef(a, k)
    /\ RFloor(R(a)) = RFloorDef(a) /\ RPair(RNumer(R(a))) = RNumerDef(a)
    /\ a[1] >= 0 => \A p \in 0..3 : RPair(RSqrt(R(a), p)) = RSqrtDef(a, p)
    /\ a[1] >= 0 => LET r == RSqrt(R(a), 300) IN
          RLe(RPow(r, 2), R(a)) /\ RLt(R(a), RPow(RAdd(r, RPow2Neg(300)), 2))
    /\ \A e \in -4..4 : RPair(RFloat(<<0, a[1], e>>)) = RFloatDef(<<0, a[1], e>>)
    /\ RFloat(<<a[1], 5, 0>>) = RAdd(RMul(RInt(a[1]), RInt(134217728)), RInt(5))
=============================================================================
