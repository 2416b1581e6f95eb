---------------------------- MODULE Incremental ----------------------------
(***************************************************************************)
(* How cores keep the central sums of a window without its observations:   *)
(* the update, removal and decay formulas of Pebay et al. (Computational   *)
(* Statistics 31, 2016), in exact arithmetic.  One variable is the core of *)
(* package moment, more are that of package joint.                         *)
(*                                                                         *)
(* Defined: after every sequence of pushes and clears the means and sums   *)
(* are those that Stats defines from the observations.                     *)
(*                                                                         *)
(* Fault selects a plausible mistake, which must violate Defined:          *)
(*   "stale"   removal uses the sums from before instead of those that it  *)
(*             has already corrected                                       *)
(*   "moved"   removal takes the deviation from the mean with the          *)
(*             observation that is removed                                 *)
(*   "twice"   a removal is made again, as for every tuple that has it     *)
(*   "first"   the first observation has the weight of any other           *)
(*   "terms"   the mixed terms of the highest order are left out           *)
(***************************************************************************)
EXTENDS Tour, Stats

CONSTANTS
    W,          \* the window; 0 for all
    L,          \* without a window: the number of observations
    Space,      \* the observations, one of Spaces
    Decay,      \* in tenths; 0 for none
    Fault

Spaces ==
    << [top |-> <<6>>,       obs |-> << <<0>>, <<1>>, <<3>> >>],
       [top |-> <<8>>,       obs |-> << <<0>>, <<-2>> >>],
       [top |-> <<4>>,       obs |-> << <<0>>, <<1>>, <<3>>, <<-2>>, <<7>> >>],
       [top |-> <<2, 2>>,    obs |-> << <<0, 0>>, <<1, 0>>, <<0, 2>>, <<3, 1>> >>],
       [top |-> <<1, 3>>,    obs |-> << <<0, 0>>, <<1, -1>>, <<3, 1>> >>],
       [top |-> <<1, 1, 2>>, obs |-> << <<0, 0, 0>>, <<1, 0, 2>>, <<3, 1, -1>> >>] >>

Top == Spaces[Space].top
Obs == [i \in DOMAIN Spaces[Space].obs |-> [j \in DOMAIN Top |-> RInt(Spaces[Space].obs[i][j])]]
Dec == IF Decay = 0 THEN <<>> ELSE << RFrac(Decay, 10) >>

VARIABLES win, count, means, sums, op
vars == <<win, count, means, sums, op>>

\* the tuples of exponents up to Top
Tuples == LET m == CHOOSE m \in {Top[i] : i \in DOMAIN Top} : \A i \in DOMAIN Top : Top[i] <= m
          IN  { a \in [DOMAIN Top -> 0..m] : \A i \in DOMAIN Top : a[i] <= Top[i] }
None == [i \in DOMAIN Top |-> 0]
Leq(b, a) == \A i \in DOMAIN a : b[i] <= a[i]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Abs(a) == TupleAbs(a)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Multinom(a, b) == FoldLeft(LAMBDA p, i : p * Choose(a[i], b[i]), 1, [i \in DOMAIN a |-> i])
Sign(k) == IF k % 2 = 0 THEN 1 ELSE -1
Signed(a, b) == RInt(Multinom(a, b) * Sign(Abs(b)))
DeltaPow(delta, b) == FoldLeft(LAMBDA p, i : RMul(p, RPow(delta[i], b[i])), ROne, [i \in DOMAIN b |-> i])
Sum(S, f(_)) == FoldLeft(LAMBDA p, b : RAdd(p, f(b)), RZero, SetToSeq(S))
Between(a) == { b \in Tuples : Leq(b, a) /\ b # None /\ b # a }
Mixed(a) == IF Fault = "terms" /\ a = Top THEN {} ELSE Between(a)

\* n: the number of observations with the one that is added or removed
Own(n, k) ==
    RMul(RDiv(RInt(n - 1), RPow(RInt(n), k)), RAdd(RPow(RInt(n - 1), k - 1), RInt(Sign(k))))

Update(s, x) ==
    LET n == s.count + 1
        delta == [i \in DOMAIN x |-> RSub(x[i], s.means[i])]
        part(a, b) == RMul(RMul(RDiv(Signed(a, b), RPow(RInt(n), Abs(b))), DeltaPow(delta, b)), s.sums[Minus(a, b)])
        sum(a) == RAdd(RAdd(s.sums[a], RMul(Own(n, Abs(a)), DeltaPow(delta, a))),
                       LET p(b) == part(a, b) IN Sum(Mixed(a), p))
    IN  [ count |-> n,
          means |-> [i \in DOMAIN x |-> RAdd(s.means[i], RDiv(delta[i], RInt(n)))],
          sums |-> [a \in Tuples |-> IF a = None THEN RInt(n) ELSE sum(a)] ]

UpdateDecay(s, x) ==
    LET n == s.count + 1
        d == IF n = 1 /\ Fault # "first" THEN ROne ELSE Dec[1]
        e == RSub(ROne, d)
        delta == [i \in DOMAIN x |-> RSub(x[i], s.means[i])]
        part(a, b) == RMul(RMul(RMul(Signed(a, b), RPow(d, Abs(b))), DeltaPow(delta, b)),
                           RMul(e, s.sums[Minus(a, b)]))
        own(k) == RAdd(RMul(e, RPow(RNeg(d), k)), RMul(d, RPow(e, k)))
        sum(a) == RAdd(RAdd(RMul(e, s.sums[a]), RMul(own(Abs(a)), DeltaPow(delta, a))),
                       LET p(b) == part(a, b) IN Sum(Mixed(a), p))
    IN  [ count |-> n,
          means |-> [i \in DOMAIN x |-> RAdd(s.means[i], RMul(d, delta[i]))],
          sums |-> [a \in Tuples |-> IF a = None THEN ROne ELSE sum(a)] ]

Nothing == [count |-> 0, means |-> [i \in DOMAIN Top |-> RZero], sums |-> [a \in Tuples |-> RZero]]

Undo(s, x) ==
    IF s.count = 1 THEN Nothing
    ELSE
    LET n == s.count
        m == [i \in DOMAIN x |-> RSub(s.means[i], RDiv(RSub(x[i], s.means[i]), RInt(n - 1)))]
        delta == [i \in DOMAIN x |-> RSub(x[i], IF Fault = "moved" THEN s.means[i] ELSE m[i])]
        part(a, b, new) ==
            RMul(RMul(RDiv(Signed(a, b), RPow(RInt(n), Abs(b))), DeltaPow(delta, b)), new[Minus(a, b)])
        once(new, a) ==
            RSub(RSub(s.sums[a], RMul(Own(n, Abs(a)), DeltaPow(delta, a))),
                 LET p(b) == part(a, b, IF Fault = "stale" THEN s.sums ELSE new) IN Sum(Mixed(a), p))
        \* in increasing order, as the lower sums have to be corrected first
        order == SortSeq(SetToSeq(Tuples \ {None}), LAMBDA a, b : Abs(a) < Abs(b))
        new == FoldLeft(LAMBDA f, a : [f EXCEPT ![a] = once(f, a)],
                        [s.sums EXCEPT ![None] = RInt(n - 1)], order)
    IN  [ count |-> n - 1, means |-> m, sums |-> new ]
Removed(s, x) ==
    LET r == Undo(s, x)
    IN  IF Fault = "twice" /\ s.count > 2
        THEN [r EXCEPT !.sums = Undo([s EXCEPT !.sums = r.sums], x).sums] ELSE r

State == [count |-> count, means |-> means, sums |-> sums]
Become(s) == count' = s.count /\ means' = s.means /\ sums' = s.sums

Push(i) ==
    /\ W > 0 \/ Len(win) < L
    /\ LET full == W > 0 /\ Len(win) = W
           s == IF full THEN Removed(State, Obs[win[1]]) ELSE State
       IN  /\ Become(IF Dec = <<>> THEN Update(s, Obs[i]) ELSE UpdateDecay(s, Obs[i]))
           /\ win' = Append(IF full THEN Tail(win) ELSE win, i)
    /\ op' = <<"push", Spaces[Space].obs[i]>>

Init == win = <<>> /\ count = 0 /\ means = Nothing.means /\ sums = Nothing.sums /\ op = <<"start">>
Next == \/ \E i \in DOMAIN Obs : Push(i)
        \/ win' = <<>> /\ Become(Nothing) /\ op' = <<"clear">>
Spec == Init /\ [][Next]_vars
View == <<win, count, means, sums>>

Defined ==
    LET vals == [j \in DOMAIN win |-> Obs[win[j]]]
    IN  /\ count = Len(win)
        /\ win # <<>> =>
             /\ means = WMeans(vals, Dec)
             /\ \A a \in Tuples : a # None => sums[a] = CentralSum(vals, a, Dec)
Edges == Emit(win, op', win')
=============================================================================
