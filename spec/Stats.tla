------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Textbook definitions of the statistics of this library on a sequence of *)
(* observations, and how much the library's floating point results may     *)
(* deviate from them.                                                      *)
(*                                                                         *)
(* An observation is a sequence of rationals, one for each variable.  All  *)
(* definitions are exact; deviations are intervals <<lo, hi>> of rationals *)
(* or Unspec, if the statistic is undefined or too ill-conditioned for a      *)
(* statement.                                                              *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, SequencesExt, TLC

Max2(i, j) == IF i > j THEN i ELSE j
Min2(i, j) == IF i < j THEN i ELSE j

------------------------------------------------------------- \* intervals

Unspec == <<>>
Around(x, e) == <<RSub(x, e), RAdd(x, e)>>
Point(x) == <<x, x>>
RMinOf(s) == FoldLeft(RMin, s[1], s)
RMaxOf(s) == FoldLeft(RMax, s[1], s)

IAdd(a, b) == IF Unspec \in {a, b} THEN Unspec ELSE <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
ISub(a, b) == IF Unspec \in {a, b} THEN Unspec ELSE <<RSub(a[1], b[2]), RSub(a[2], b[1])>>
IMul(a, b) ==
    IF Unspec \in {a, b} THEN Unspec
    ELSE LET p == << RMul(a[1], b[1]), RMul(a[1], b[2]), RMul(a[2], b[1]), RMul(a[2], b[2]) >>
         IN  <<RMinOf(p), RMaxOf(p)>>
IDiv(a, b) ==
    IF Unspec \in {a, b} \/ (RLe(b[1], RZero) /\ RLe(RZero, b[2])) THEN Unspec
    ELSE IMul(a, <<RDiv(ROne, b[2]), RDiv(ROne, b[1])>>)
IScale(a, r) == IMul(a, Point(r))
SqrtBits == 400
\* square root of a quantity that is known to be nonnegative
ISqrt(a) ==
    IF a = Unspec THEN Unspec
    ELSE << RSqrt(RMax(RZero, a[1]), SqrtBits),
            RAdd(RSqrt(RMax(RZero, a[2]), SqrtBits), RPow2Neg(SqrtBits)) >>
\* a few more roundings of the final result
Slack(a) ==
    IF a = Unspec THEN Unspec
    ELSE LET s == RMul(RPow2Neg(44), RMax(RAbs(a[1]), RAbs(a[2])))
         IN  <<RSub(a[1], s), RAdd(a[2], s)>>
In(v, iv) == iv = Unspec \/ (RLe(iv[1], v) /\ RLe(v, iv[2]))

--------------------------------------------------- \* results and numbers

\* The number of a result record.
NumOf(r) == RFloat(r.v)
IsNumber(r) == r.k \in {"num", "nan", "pinf", "ninf"}
\* A result is a finite number in the interval (any number if it is Unspec).
NumIs(r, iv) == IF iv = Unspec THEN IsNumber(r) ELSE r.k = "num" /\ In(NumOf(r), iv)
\* Infinite observations are represented by numbers beyond all finite ones; they only
\* occur where observations are compared, not computed with.
PInf == RPow(RInt(2), 2000)
NInf == RNeg(PInf)
NumEq(r, x) ==
    CASE r.k = "num" -> NumOf(r) = x
      [] r.k = "pinf" -> x = PInf
      [] r.k = "ninf" -> x = NInf
      [] OTHER -> FALSE

----------------------------------------------------------- \* definitions

RSum(s) == FoldLeft(RAdd, RZero, s)
Column(vals, i) == [j \in 1..Len(vals) |-> vals[j][i]]
MeanOf(vals, i) == RDiv(RSum(Column(vals, i)), RInt(Len(vals)))

\* Exponentially weighted sum of s: the newest has weight d, the weight of older
\* ones shrinks by 1-d for every later one, the first has the remaining weight.
EWWeight(n, j, d) ==
    LET later == RPow(RSub(ROne, d), n - j)
    IN  IF j = 1 THEN later ELSE RMul(d, later)
EWSumDef(s, d) == RSum([j \in 1..Len(s) |-> RMul(EWWeight(Len(s), j, d), s[j])])
\* the same by Horner's scheme
EWSum(s, d) ==
    LET e == RSub(ROne, d)
    IN  FoldLeft(LAMBDA acc, x : RAdd(RMul(e, acc), RMul(d, x)), s[1], Tail(s))

\* d is <<>> or <<decay>>
WMean(vals, i, d) == IF d = <<>> THEN MeanOf(vals, i) ELSE EWSum(Column(vals, i), d[1])
WMeans(vals, d) == [i \in 1..Len(vals[1]) |-> WMean(vals, i, d)]

\* product of the deviations of observation x from the means, to the powers a
RECURSIVE DevProd(_, _, _, _)
DevProd(x, mu, a, i) ==
    IF i > Len(a) THEN ROne
    ELSE IF a[i] = 0 THEN DevProd(x, mu, a, i + 1)
    ELSE RMul(RPow(RSub(x[i], mu[i]), a[i]), DevProd(x, mu, a, i + 1))

\* joint centralized power sum (or exponentially weighted central moment) of exponents a
CentralSum(vals, a, d) ==
    LET mu == TLCEval(WMeans(vals, d))
        p == [j \in 1..Len(vals) |-> DevProd(vals[j], mu, a, 1)]
    IN  IF d = <<>> THEN RSum(p) ELSE EWSum(p, d[1])

------------------------------------------------------------ \* tolerances
(***************************************************************************)
(* Rounding.  h describes all observations pushed since the last clear:    *)
(* h.n is their number and h.lo, h.hi their least and greatest values for  *)
(* every variable.  A numerically stable update rounds the mean by at most *)
(* a multiple of the unit roundoff and the magnitude of the data, for      *)
(* every push; an error of the mean shifts the central sums.  The bounds   *)
(* depend on the spread of the data to the power of the moment's order and *)
(* only linearly on its magnitude, which is what a computation from raw    *)
(* power sums does not achieve.                                            *)
(***************************************************************************)
CU == RPow2Neg(49)                   \* 8 units of 2^-52

Spread(h, i) == RSub(h.hi[i], h.lo[i])
Magnitude(h, i) == RMax(RAbs(h.lo[i]), RAbs(h.hi[i]))
MeanTol(h, i) == RMul(RMul(CU, RInt(h.n)), RAdd(Magnitude(h, i), Spread(h, i)))

\* the spread, and what an error of the mean adds to it
WideSpread(h, i) == RAdd(Spread(h, i), MeanTol(h, i))

RECURSIVE ProdPow(_, _, _)
ProdPow(r, a, i) == IF i > Len(a) THEN ROne
                    ELSE RMul(RPow(r[i], a[i]), ProdPow(r, a, i + 1))

TupleAbs(a) == FoldLeft(LAMBDA x, y : x + y, 0, a)
\* a, with one less of i
Less1(a, i) == [a EXCEPT ![i] = @ - 1]

SumTol(h, a, weight) ==
    LET r == TLCEval([i \in 1..Len(a) |-> WideSpread(h, i)])
        own == RMul(RMul(CU, RInt(h.n)), ProdPow(r, a, 1))
        shift == RSum([i \in 1..Len(a) |->
                    IF a[i] = 0 THEN RZero
                    ELSE RMul(RMul(RInt(a[i]), MeanTol(h, i)), ProdPow(r, Less1(a, i), 1))])
    IN  RMul(RMul(RInt(weight), RPow(RInt(2), TupleAbs(a))), RAdd(own, shift))

--------------------------------------------- \* statistics of a series
(* s has the fields vals, n, lo, hi; d is <<>> or <<decay>>.               *)

MeanIv(s, i, d) == Around(WMean(s.vals, i, d), MeanTol(s, i))
SumIv(s, a, d) ==
    Around(CentralSum(s.vals, a, d), SumTol(s, a, IF d = <<>> THEN Len(s.vals) ELSE 1))

N(s) == Len(s.vals)
MomentIv(s, k) ==
    IF N(s) < 2 THEN Unspec ELSE Slack(IScale(SumIv(s, <<k>>, <<>>), RFrac(1, N(s) - 1)))
StdIv(s) == IF N(s) < 2 THEN Unspec ELSE Slack(ISqrt(MomentIv(s, 2)))
\* population moments
PopIv(s, k) == IScale(SumIv(s, <<k>>, <<>>), RFrac(1, N(s)))
\* adjusted Fisher-Pearson skewness
SkewnessIv(s) ==
    IF N(s) < 3 THEN Unspec
    ELSE LET n == N(s)
             v == PopIv(s, 2)
             adj == IScale(ISqrt(Point(RMul(RInt(n), RInt(n - 1)))), RFrac(1, n - 2))
         IN  IF RLe(v[1], RZero) THEN Unspec
             ELSE Slack(IMul(adj, IDiv(PopIv(s, 3), IMul(v, ISqrt(v)))))
\* excess kurtosis
KurtosisIv(s) ==
    IF N(s) < 2 THEN Unspec
    ELSE LET v == PopIv(s, 2)
         IN  IF RLe(v[1], RZero) THEN Unspec
             ELSE Slack(ISub(Slack(IDiv(PopIv(s, 4), IMul(v, v))), Point(RInt(3))))
CovIv(s) == IF N(s) < 2 THEN Unspec ELSE Slack(IScale(SumIv(s, <<1, 1>>, <<>>), RFrac(1, N(s) - 1)))
CorrIv(s, d) ==
    IF N(s) < 2 THEN Unspec
    ELSE LET x == SumIv(s, <<2, 0>>, d)
             y == SumIv(s, <<0, 2>>, d)
         IN  IF RLe(x[1], RZero) \/ RLe(y[1], RZero) THEN Unspec
             ELSE Slack(IDiv(SumIv(s, <<1, 1>>, d), ISqrt(IMul(x, y))))
EWMomentIv(s, k, d) == Slack(SumIv(s, <<k>>, d))
EWStdIv(s, d) == Slack(ISqrt(SumIv(s, <<2>>, d)))

------------------------------------------------------ \* order statistics

Sorted(s) == RSorted(s)

\* number of values less than x in a sorted sequence (binary search in (lo, hi])
RECURSIVE LessFrom(_, _, _, _)
LessFrom(s, x, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF RLt(s[mid], x) THEN LessFrom(s, x, mid, hi) ELSE LessFrom(s, x, lo, mid - 1)
CountLess(s, x) == LessFrom(s, x, 0, Len(s))
InsertSorted(s, x) ==
    LET r == CountLess(s, x) IN SubSeq(s, 1, r) \o <<x>> \o SubSeq(s, r + 1, Len(s))
HasValue(s, x) == LET r == CountLess(s, x) IN r < Len(s) /\ s[r + 1] = x
RemoveSorted(s, x) ==
    LET r == CountLess(s, x)
    IN  IF r < Len(s) /\ s[r + 1] = x THEN SubSeq(s, 1, r) \o SubSeq(s, r + 2, Len(s)) ELSE s

\* The interpolation of the sorted sequence s at the (0-based, rational) index x.
Clamp(s, x) == RMax(RZero, RMin(x, RInt(Len(s) - 1)))
At(s, x, interp) ==
    LET i == RFloor(x)
        delta == RSub(x, RInt(i))
        lo == s[i + 1]
        hi == s[i + 2]
    IN  IF delta = RZero THEN lo
        ELSE CASE interp = "linear" -> RAdd(RMul(RSub(ROne, delta), lo), RMul(delta, hi))
               [] interp = "lower" -> lo
               [] interp = "higher" -> hi
               [] interp = "nearest" ->
                    IF delta = RFrac(1, 2) THEN (IF i % 2 = 0 THEN lo ELSE hi)
                    ELSE IF RLt(delta, RFrac(1, 2)) THEN lo ELSE hi
               [] interp = "midpoint" -> RMul(RFrac(1, 2), RAdd(lo, hi))

\* q is a floating point number, and so the index q * (n - 1) is computed exactly
\* if its numerator has at most 53 bits; otherwise it may be off by a rounding.
IsFloat(x) == RLt(RNumer(RAbs(x)), RPow(RInt(2), 53))
IndexTol(s, q) ==
    IF IsFloat(RMul(q, RInt(Len(s) - 1))) THEN RZero ELSE RMul(RInt(Len(s)), RPow2Neg(50))

\* r is the q-quantile of the sorted sequence s
QuantileIs(r, s, q, interp) ==
    LET x == RMul(q, RInt(Len(s) - 1))
        e == IndexTol(s, q)
        at == { At(s, Clamp(s, y), interp) : y \in {x, RSub(x, e), RAdd(x, e)} }
        lo == CHOOSE v \in at : \A w \in at : RLe(v, w)
        hi == CHOOSE v \in at : \A w \in at : RLe(w, v)
        mag == RMul(RPow2Neg(50), RMax(RAbs(s[1]), RAbs(s[Len(s)])))
    IN  CASE interp \in {"lower", "higher", "nearest"} -> \E v \in at : NumEq(r, v)
          [] OTHER -> IF x = RInt(RFloor(x)) /\ e = RZero THEN NumEq(r, lo)
                      ELSE NumIs(r, <<RSub(lo, mag), RAdd(hi, mag)>>)

Half == RFrac(1, 2)
MedianIs(r, s) == QuantileIs(r, s, Half, "midpoint")
IQRIs(r, s) ==
    LET v(q) == At(s, RMul(q, RInt(Len(s) - 1)), "midpoint")
        mag == RMul(RPow2Neg(49), RMax(RAbs(s[1]), RAbs(s[Len(s)])))
    IN  NumIs(r, Around(RSub(v(RFrac(3, 4)), v(RFrac(1, 4))), mag))
=============================================================================
