------------------------------- MODULE Sorted -------------------------------
(* Sorted multisets of integers, as sequences. *)
EXTENDS Integers, Sequences, FiniteSets
IsSorted(s) == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]
CountBelow(s, v) == Cardinality({ i \in DOMAIN s : s[i] < v })
SortedAdd(s, v) ==
    LET k == CountBelow(s, v) IN SubSeq(s, 1, k) \o <<v>> \o SubSeq(s, k + 1, Len(s))
SortedRemove(s, v) ==
    LET k == CountBelow(s, v)
    IN  IF k < Len(s) /\ s[k + 1] = v THEN SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s)) ELSE s
=============================================================================
