-------------------------------- MODULE LLRB --------------------------------
(***************************************************************************)
(* The left-leaning red-black tree of quantile/ost/rb, as an algorithm on  *)
(* trees whose nodes store a value, a colour and a size.  It refines the   *)
(* sorted multiset, its stored sizes are exact, no red node has a red      *)
(* child, no right child is red and all paths have as many black nodes.    *)
(* With Repaired = FALSE it is the deletion that the library had, which    *)
(* loses another value when duplicates are present: a negative control.    *)
(***************************************************************************)
EXTENDS Tour, Sorted
CONSTANTS N, V, Repaired

VARIABLES t, op
vars == <<t, op>>

Nil == <<>>
Size(n) == IF n = Nil THEN 0 ELSE n.s
Red(n) == n # Nil /\ n.red
Leaf(v) == [v |-> v, red |-> TRUE, s |-> 1, l |-> Nil, r |-> Nil]
Sized(n) == [n EXCEPT !.s = Size(n.l) + Size(n.r) + 1]

RotateLeft(n) ==
    LET x == n.r
        low == Sized([n EXCEPT !.r = x.l, !.red = TRUE])
    IN  Sized([x EXCEPT !.l = low, !.red = n.red])
RotateRight(n) ==
    LET x == n.l
        low == Sized([n EXCEPT !.l = x.r, !.red = TRUE])
    IN  Sized([x EXCEPT !.r = low, !.red = n.red])
Flip(n) == [n EXCEPT !.red = ~@, !.l.red = ~@, !.r.red = ~@]

RedLeftLeft(n) == Red(n.l) /\ Red(n.l.l)
Straighten(n) ==      \* the last two steps of balancing
    LET a == IF RedLeftLeft(n) THEN RotateRight(n) ELSE n
        b == IF Red(a.l) /\ Red(a.r) THEN Flip(a) ELSE a
    IN  Sized(b)
AddBalance(n) == Straighten(IF ~Red(n.l) /\ Red(n.r) THEN RotateLeft(n) ELSE n)
RemoveBalance(n) == Straighten(IF Red(n.r) THEN RotateLeft(n) ELSE n)
MoveRedLeft(n) ==
    LET f == Flip(n) IN
    IF Red(f.r.l) THEN Flip(RotateLeft([f EXCEPT !.r = RotateRight(@)])) ELSE f
MoveRedRight(n) ==
    LET f == Flip(n) IN IF Red(f.l.l) THEN Flip(RotateRight(f)) ELSE f

RECURSIVE Insert(_, _), LeastOf(_), RemoveMin(_), Delete(_, _), Contains(_, _)
Insert(n, v) ==
    IF n = Nil THEN Leaf(v)
    ELSE AddBalance(IF v <= n.v THEN [n EXCEPT !.l = Insert(@, v)] ELSE [n EXCEPT !.r = Insert(@, v)])
LeastOf(n) == IF n.l = Nil THEN n.v ELSE LeastOf(n.l)
Black2(n) == ~Red(n) /\ (n = Nil \/ ~Red(n.l))      \* neither it nor its left child is red
RemoveMin(n) ==
    IF n.l = Nil THEN Nil
    ELSE LET m == IF Black2(n.l) THEN MoveRedLeft(n) ELSE n
         IN  RemoveBalance([m EXCEPT !.l = RemoveMin(@)])
Contains(n, v) ==
    n # Nil /\ (v = n.v \/ (v < n.v /\ Contains(n.l, v)) \/ (v > n.v /\ Contains(n.r, v)))
Delete(n, v) ==
    IF ~Contains(n, v) THEN n
    ELSE IF v < n.v
    THEN LET m == IF Black2(n.l) THEN MoveRedLeft(n) ELSE n
         IN  RemoveBalance([m EXCEPT !.l = Delete(@, v)])
    ELSE LET a == IF Red(n.l) THEN RotateRight(n) ELSE n
         IN  IF v = a.v /\ a.r = Nil THEN Nil
             ELSE LET moves == Black2(a.r)
                      m == IF moves THEN MoveRedRight(a) ELSE a
                      rotated == moves /\ Red(a.l.l)
                      here == v = m.v /\ (Repaired => ~rotated)
                  IN  RemoveBalance(IF here
                          THEN [m EXCEPT !.v = LeastOf(m.r), !.r = RemoveMin(@)]
                          ELSE [m EXCEPT !.r = Delete(@, v)])

Blacken(n) == IF n = Nil THEN n ELSE [n EXCEPT !.red = FALSE]
Add(n, v) == Blacken(Insert(n, v))
Remove(n, v) ==
    IF ~Contains(n, v) THEN n
    ELSE Blacken(Delete(IF ~Red(n.l) /\ ~Red(n.r) THEN [n EXCEPT !.red = TRUE] ELSE n, v))

RECURSIVE InOrder(_), Select(_, _), Rank(_, _), Blacks(_), Show(_)
InOrder(n) == IF n = Nil THEN <<>> ELSE InOrder(n.l) \o <<n.v>> \o InOrder(n.r)
Select(n, k) ==
    IF n = Nil THEN 0
    ELSE LET s == Size(n.l) IN
         IF k < s THEN Select(n.l, k) ELSE IF k > s THEN Select(n.r, k - s - 1) ELSE n.v
Rank(n, v) ==
    IF n = Nil THEN 0
    ELSE IF v <= n.v THEN Rank(n.l, v) ELSE 1 + Size(n.l) + Rank(n.r, v)
\* the number of black nodes on every path to a missing child; -1 if they differ,
\* a colour is misplaced or a size is wrong
Blacks(n) ==
    IF n = Nil THEN 0
    ELSE LET a == Blacks(n.l)
             b == Blacks(n.r)
         IN  IF a = -1 \/ a # b \/ n # Sized(n) \/ Red(n.r) \/ (n.red /\ Red(n.l)) THEN -1
             ELSE IF n.red THEN a ELSE a + 1
Show(n) == IF n = Nil THEN <<>> ELSE <<Show(n.l), IF n.red THEN -n.v ELSE n.v, Show(n.r)>>

Init == t = Nil /\ op = <<"start">>
Next == \/ \E v \in 1..V : Size(t) < N /\ t' = Add(t, v) /\ op' = <<"add", v>>
        \/ \E v \in 1..V : t' = Remove(t, v) /\ op' = <<"remove", v>>
        \/ t' = Nil /\ op' = <<"clear">>
Spec == Init /\ [][Next]_vars
View == t

Balanced == Blacks(t) # -1 /\ ~Red(t)
Order == IsSorted(InOrder(t))
Answers == LET s == InOrder(t) IN
    /\ Size(t) = Len(s)
    /\ \A k \in 0..Len(s) - 1 : Select(t, k) = s[k + 1]
    /\ Select(t, -1) = 0 /\ Select(t, Len(s)) = 0
    /\ \A v \in 0..V + 1 : Rank(t, v) = CountBelow(s, v)
Refines == [][ InOrder(t') = CASE op'[1] = "add" -> SortedAdd(InOrder(t), op'[2])
                               [] op'[1] = "remove" -> SortedRemove(InOrder(t), op'[2])
                               [] OTHER -> <<>> ]_vars
Edges == Emit(Show(t), op', Show(t'))
=============================================================================
