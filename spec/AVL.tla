-------------------------------- MODULE AVL --------------------------------
(***************************************************************************)
(* The AVL tree of quantile/ost/avl, as an algorithm on trees whose nodes  *)
(* store a value, a height and a size: insertion, deletion and rotations.  *)
(* It is a sorted multiset: every step refines Add or Remove of one, and   *)
(* Select and Rank, which follow the stored sizes, answer as defined for   *)
(* it; the stored heights and sizes are exact and the tree is balanced.    *)
(***************************************************************************)
EXTENDS Tour, Sorted
CONSTANTS N,        \* maximum number of values held
          V         \* the values are 1..V

VARIABLES t, op
vars == <<t, op>>

Nil == <<>>
Height(n) == IF n = Nil THEN -1 ELSE n.h
Size(n) == IF n = Nil THEN 0 ELSE n.s
Max(a, b) == IF a < b THEN b ELSE a

Leaf(v) == [v |-> v, h |-> 0, s |-> 1, l |-> Nil, r |-> Nil]
\* the node with its size and height computed from its children's
Fix(n) == [n EXCEPT !.s = Size(n.l) + Size(n.r) + 1, !.h = Max(Height(n.l), Height(n.r)) + 1]

RotateLeft(n) ==
    LET m == n.r
        low == Fix([n EXCEPT !.r = m.l])
    IN  Fix([m EXCEPT !.l = low])
RotateRight(n) ==
    LET m == n.l
        low == Fix([n EXCEPT !.l = m.r])
    IN  Fix([m EXCEPT !.r = low])

Diff(n) == Height(n.l) - Height(n.r)
Balance(n) ==
    CASE Diff(n) < -1 -> RotateLeft(IF Diff(n.r) > 0 THEN [n EXCEPT !.r = RotateRight(@)] ELSE n)
      [] Diff(n) > 1 -> RotateRight(IF Diff(n.l) < 0 THEN [n EXCEPT !.l = RotateLeft(@)] ELSE n)
      [] OTHER -> n

RECURSIVE Add(_, _), LeastOf(_), RemoveMin(_), Remove(_, _)
Add(n, v) ==
    IF n = Nil THEN Leaf(v)
    ELSE Balance(Fix(IF v <= n.v THEN [n EXCEPT !.l = Add(@, v)] ELSE [n EXCEPT !.r = Add(@, v)]))
LeastOf(n) == IF n.l = Nil THEN n.v ELSE LeastOf(n.l)
RemoveMin(n) == IF n.l = Nil THEN n.r ELSE Balance(Fix([n EXCEPT !.l = RemoveMin(@)]))
Remove(n, v) ==
    CASE n = Nil -> Nil
      [] n # Nil /\ v < n.v -> Balance(Fix([n EXCEPT !.l = Remove(@, v)]))
      [] n # Nil /\ v > n.v -> Balance(Fix([n EXCEPT !.r = Remove(@, v)]))
      [] OTHER -> IF n.l = Nil THEN n.r
                  ELSE IF n.r = Nil THEN n.l
                  ELSE Balance(Fix([n EXCEPT !.v = LeastOf(n.r), !.r = RemoveMin(@)]))

RECURSIVE InOrder(_), Select(_, _), Rank(_, _), Exact(_), Show(_)
InOrder(n) == IF n = Nil THEN <<>> ELSE InOrder(n.l) \o <<n.v>> \o InOrder(n.r)
Select(n, k) ==
    IF n = Nil THEN 0
    ELSE LET s == Size(n.l) IN
         IF k < s THEN Select(n.l, k) ELSE IF k > s THEN Select(n.r, k - s - 1) ELSE n.v
Rank(n, v) ==
    IF n = Nil THEN 0
    ELSE IF v <= n.v THEN Rank(n.l, v) ELSE 1 + Size(n.l) + Rank(n.r, v)
\* stored sizes and heights are exact, siblings' heights differ by at most one
Exact(n) == n # Nil => /\ n = Fix(n) /\ Diff(n) \in -1..1 /\ Exact(n.l) /\ Exact(n.r)
Show(n) == IF n = Nil THEN <<>> ELSE <<Show(n.l), n.v, Show(n.r)>>

Init == t = Nil /\ op = <<"start">>
Next == \/ \E v \in 1..V : Size(t) < N /\ t' = Add(t, v) /\ op' = <<"add", v>>
        \/ \E v \in 1..V : t' = Remove(t, v) /\ op' = <<"remove", v>>
        \/ t' = Nil /\ op' = <<"clear">>
Spec == Init /\ [][Next]_vars
View == t

Balanced == Exact(t)
Order == IsSorted(InOrder(t))
Answers == LET s == InOrder(t) IN
    /\ Size(t) = Len(s)
    /\ \A k \in 0..Len(s) - 1 : Select(t, k) = s[k + 1]
    /\ Select(t, -1) = 0 /\ Select(t, Len(s)) = 0
    /\ \A v \in 0..V + 1 : Rank(t, v) = CountBelow(s, v)
\* every step is one of the sorted multiset
Refines == [][ InOrder(t') = CASE op'[1] = "add" -> SortedAdd(InOrder(t), op'[2])
                               [] op'[1] = "remove" -> SortedRemove(InOrder(t), op'[2])
                               [] OTHER -> <<>> ]_vars
Edges == Emit(Show(t), op', Show(t'))
=============================================================================
