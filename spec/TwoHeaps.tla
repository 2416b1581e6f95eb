------------------------------ MODULE TwoHeaps ------------------------------
(***************************************************************************)
(* The running median of quantile.HeapMedian: a max-heap of the low and a  *)
(* min-heap of the high values, and a queue of the window that knows where *)
(* each value is.  Heaps are bags here: which of several equal extremes is *)
(* moved is left open, so all that a heap may do is covered.               *)
(* With Repaired = FALSE a full window is pushed to as the library did it, *)
(* which lets the heaps' sizes drift apart: a negative control.            *)
(***************************************************************************)
EXTENDS Tour, Sorted
CONSTANTS W,        \* the window; 0 is none
          V, N,     \* values 1..V, at most N of them without a window
          Repaired
VARIABLES q,        \* the values in order of arrival, <<value, side>>
          op
vars == <<q, op>>

Side(s, side) == { i \in DOMAIN s : s[i][2] = side }
Top(s, side) ==       \* the extreme of a heap; 0 if it is empty
    IF Side(s, side) = {} THEN 0
    ELSE LET i == CHOOSE i \in Side(s, side) : \A j \in Side(s, side) :
                      IF side = "low" THEN s[j][1] <= s[i][1] ELSE s[i][1] <= s[j][1]
         IN  s[i][1]
Move(s, from, to) ==  \* all results of moving an extreme
    { [s EXCEPT ![i][2] = to] : i \in { i \in Side(s, from) : s[i][1] = Top(s, from) } }
Rebalanced(s) ==
    LET l == Cardinality(Side(s, "low"))
        h == Cardinality(Side(s, "high"))
    IN  CASE l + 1 < h -> Move(s, "high", "low")
          [] l > h + 1 -> Move(s, "low", "high")
          [] OTHER -> {s}

Pushes(x) ==
    IF W > 0 /\ Len(q) = W
    THEN LET low == Side(q, "low") # {} /\ x <= Top(q, "low")
             out == Append(Tail(q), <<x, IF Repaired THEN IF low THEN "low" ELSE "high" ELSE q[1][2]>>)
         IN  Rebalanced(out)
    ELSE Rebalanced(Append(q, <<x, IF Side(q, "low") = {} \/ x <= Top(q, "low") THEN "low" ELSE "high">>))

Init == q = <<>> /\ op = <<"start">>
Next == \/ \E x \in 1..V : (W > 0 \/ Len(q) < N) /\ q' \in Pushes(x) /\ op' = <<"push", x>>
        \/ q' = <<>> /\ op' = <<"clear">>
Spec == Init /\ [][Next]_vars
View == q

RECURSIVE SortedOf(_)
SortedOf(s) == IF s = <<>> THEN <<>> ELSE SortedAdd(SortedOf(Tail(s)), s[1][1])
\* twice the median
Answer ==
    q # <<>> =>
    LET l == Cardinality(Side(q, "low"))
        h == Cardinality(Side(q, "high"))
        v == SortedOf(q)
        n == Len(v)
        median2 == IF n % 2 = 1 THEN 2 * v[(n + 1) \div 2] ELSE v[n \div 2] + v[n \div 2 + 1]
    IN  median2 = CASE l < h -> 2 * Top(q, "high")
                    [] l > h -> 2 * Top(q, "low")
                    [] OTHER -> Top(q, "low") + Top(q, "high")
Sizes == Cardinality(Side(q, "low")) - Cardinality(Side(q, "high")) \in -1..1
Split == \A i \in Side(q, "low"), j \in Side(q, "high") : q[i][1] <= q[j][1]
Edges == Emit(q, op', q')
=============================================================================
