----------------------------- MODULE Reservoir -----------------------------
(***************************************************************************)
(* Reservoir sampling.  dist is the exact distribution of the reservoir (a *)
(* function from the contents by slot to probabilities) after n pushes, as *)
(* the draws of Push determine it: the n-th item goes to slot j of the     *)
(* reservoir with probability 1/n each.                                    *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, Functions, Folds, TLC

CONSTANTS Sizes, Pushes

VARIABLES size, n, dist
vars == <<size, n, dist>>

Init == size \in Sizes /\ n = 0 /\ dist = [c \in {<<>>} |-> ROne]

\* the contents after a push with the draw i \in 0..n
Replace(c, i) == IF Len(c) < size THEN Append(c, n + 1)
                 ELSE IF i < size THEN [c EXCEPT ![i + 1] = n + 1] ELSE c
Draws(c) == IF Len(c) < size THEN {0} ELSE 0..n
Add(f(_), S) == MapThenFoldSet(RAdd, RZero, f, LAMBDA T : CHOOSE x \in T : TRUE, S)

Push ==
    /\ n < Pushes
    /\ n' = n + 1
    /\ UNCHANGED size
    /\ LET ways == { <<c, i>> \in (DOMAIN dist) \X (0..n) : i \in Draws(c) }
           weight(w) == RDiv(dist[w[1]], RInt(Cardinality(Draws(w[1]))))
       IN  dist' = [ c \in { Replace(w[1], w[2]) : w \in ways } |->
                       Add(weight, { w \in ways : Replace(w[1], w[2]) = c }) ]
Spec == Init /\ [][Push]_vars

Least(a, b) == IF a < b THEN a ELSE b
Subsets == { S \in SUBSET (1..n) : Cardinality(S) = Least(n, size) }
ProbOf(S) == LET p(c) == dist[c] IN Add(p, { c \in DOMAIN dist : { c[i] : i \in DOMAIN c } = S })
\* every subset is equally likely
Uniform == \A S \in Subsets : ProbOf(S) = RFrac(1, Cardinality(Subsets))
\* contents are distinct items, all of them at first
Bounded == \A c \in DOMAIN dist : Len(c) = Least(n, size) /\ Cardinality({ c[i] : i \in DOMAIN c }) = Len(c)
\* the probability that an item, or a pair, is in the sample
Inclusion ==
    n >= size /\ n > 1 =>
    \A a \in 1..n :
        /\ Add(ProbOf, { S \in Subsets : a \in S }) = RFrac(size, n)
        /\ \A b \in 1..(a - 1) :
              Add(ProbOf, { S \in Subsets : {a, b} \subseteq S }) = RFrac(size * (size - 1), n * (n - 1))
=============================================================================
