----------------------------- MODULE MonoDeque -----------------------------
(***************************************************************************)
(* The sliding minimum of package minmax: a queue of the window and a      *)
(* deque of the candidates for the minimum, in which equal values are kept *)
(* (so that evicting one of them leaves the others).                       *)
(***************************************************************************)
EXTENDS Tour, FiniteSets
CONSTANTS W, V
VARIABLES q, d, op
vars == <<q, d, op>>

RECURSIVE DropGreater(_, _)
DropGreater(s, x) ==
    IF s # <<>> /\ s[Len(s)] > x THEN DropGreater(SubSeq(s, 1, Len(s) - 1), x) ELSE s

Push(x) ==
    LET full == Len(q) = W
        q1 == IF full THEN Tail(q) ELSE q
        d1 == IF full /\ d[1] = q[1] THEN Tail(d) ELSE d
    IN  q' = Append(q1, x) /\ d' = Append(DropGreater(d1, x), x)

Init == q = <<>> /\ d = <<>> /\ op = <<"start">>
Next == \/ \E x \in 1..V : Push(x) /\ op' = <<"push", x>>
        \/ q' = <<>> /\ d' = <<>> /\ op' = <<"clear">>
Spec == Init /\ [][Next]_vars
View == <<q, d>>

Least(s) == CHOOSE x \in { s[i] : i \in DOMAIN s } : \A i \in DOMAIN s : x <= s[i]
Answer == q # <<>> => d # <<>> /\ d[1] = Least(q)
\* the deque has the values that are least in a suffix of the window
Candidates == d = SelectSeq([i \in DOMAIN q |-> IF \A j \in i..Len(q) : q[i] <= q[j] THEN q[i] ELSE 0],
                            LAMBDA x : x # 0)
Bounded == Len(q) <= W
Edges == Emit(<<q, d>>, op', <<q', d'>>)
=============================================================================
