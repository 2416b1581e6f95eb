-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merging of configurations: every sequence up to a length of given ones. *)
(*                                                                         *)
(* from has the configurations, acc what merging them one at a time gives, *)
(* or <<>> after a conflict.  Metric!MergeLegal says what a merge may      *)
(* return; the invariants say that this is never empty, that the order and *)
(* the grouping do not matter, and that a core of the merged configuration *)
(* serves exactly what cores of the configurations do.                     *)
(***************************************************************************)
EXTENDS Metric, Json, IOUtils

Given == JsonDeserialize(IOEnv.SETUP)
Depth == Given.depth
\* configurations, or metrics
Pool == [i \in DOMAIN Given.pool |->
           IF "cfg" \in DOMAIN Given.pool[i] THEN Given.pool[i].cfg ELSE MetricCfg(Given.pool[i].new)]

VARIABLES from, acc
vars == <<from, acc>>

First(cfgs, f(_)) ==
    LET is == { i \in DOMAIN cfgs : f(cfgs[i]).set }
    IN  IF is = {} THEN Unset ELSE f(cfgs[CHOOSE i \in is : \A j \in is : i <= j])
Maximal(ts) == { a \in ts : \A b \in ts : TupleLe(a, b) => a = b }
Compatible(cfgs) ==
    /\ Agree(cfgs, WindowOf) /\ Agree(cfgs, VarsOf) /\ Agree(cfgs, DecayOf)
    /\ Cardinality(Lengths(cfgs)) <= 1
Merged(cfgs) ==
    [ dom |-> cfgs[1].dom, w |-> First(cfgs, WindowOf), d |-> First(cfgs, DecayOf),
      vars |-> First(cfgs, VarsOf), sums |-> SetToSeq(Maximal(AskedSums(cfgs))) ]

Init == from = <<>> /\ acc = <<>>
Next == /\ Len(from) < Depth
        /\ \E i \in DOMAIN Pool :
              /\ from' = Append(from, i)
              /\ acc' = CASE from = <<>> -> <<Merged(<<Pool[i]>>)>>
                          [] acc = <<>> -> <<>>
                          [] Compatible(<<acc[1], Pool[i]>>) -> <<Merged(<<acc[1], Pool[i]>>)>>
                          [] OTHER -> <<>>
Spec == Init /\ [][Next]_vars

Cfgs == [i \in DOMAIN from |-> Pool[from[i]]]
Same(a, b) == [a EXCEPT !.sums = Elems(@)] = [b EXCEPT !.sums = Elems(@)]
Cube(cfgs) ==
    LET n == CHOOSE l \in Lengths(cfgs) : TRUE
        high == { TupleAbs(a) : a \in AskedSums(cfgs) }
        top == CHOOSE m \in high : \A x \in high : x <= m
    IN  [1..n -> 0..(1 + Max2(0, top))]

\* Some result is legal: the merged configuration, or an error if there is a conflict.
Decided ==
    from # <<>> =>
      IF Compatible(Cfgs)
      THEN /\ MergeLegal(Cfgs, [k |-> "cfg", cfg |-> Merged(Cfgs)])
           /\ Len(Cfgs) > 1 => ~MergeLegal(Cfgs, [k |-> "err"])
      ELSE MergeLegal(Cfgs, [k |-> "err"])
\* One at a time or all at once, in any order
Grouped ==
    from # <<>> =>
      /\ (acc # <<>>) = Compatible(Cfgs)
      /\ acc # <<>> => Same(acc[1], Merged(Cfgs)) /\ Same(acc[1], Merged(Reverse(Cfgs)))
      /\ acc # <<>> => Same(acc[1], Merged(Cfgs \o Cfgs))
\* Metrics with valid configurations that agree can share a core.  That sums of one
\* configuration do not fit the number of variables of another is found by the core.
Fits(cfgs) == \A i \in DOMAIN cfgs : cfgs[i].vars.set => Lengths(cfgs) \subseteq {cfgs[i].vars.v}
Closed ==
    /\ acc # <<>> /\ Fits(Cfgs) /\ (\A i \in DOMAIN Cfgs : CfgValid(Cfgs[i])) => CfgValid(acc[1])
    /\ acc # <<>> /\ Pool[1].dom = "joint" /\ ~Fits(Cfgs) => ~CfgValid(acc[1])
    \* what one configuration lacks another one may have, but nothing repairs bad sums
    /\ acc # <<>> /\ (\E i \in DOMAIN Cfgs : \E t \in Elems(Cfgs[i].sums) : TupleAbs(t) <= 0) =>
          \/ ~CfgValid(acc[1])
          \* (0, 0) is part of every sum
          \/ \A i \in DOMAIN Cfgs : \A t \in Elems(Cfgs[i].sums) : TupleAbs(t) <= 0 =>
                \E b \in AskedSums(Cfgs) : b # t /\ TupleLe(t, b)
Serves ==
    acc # <<>> /\ CfgValid(acc[1]) /\ Lengths(Cfgs) # {} =>
      \A a \in Cube(Cfgs) :
        Tracks(NewCore(acc[1]), a) =
          \E i \in DOMAIN Cfgs : \E b \in Elems(Cfgs[i].sums) : TupleLe(a, b) /\ TupleAbs(a) > 0

Report == from # <<>> => PrintT("FROM|" \o ToString(from))
=============================================================================
