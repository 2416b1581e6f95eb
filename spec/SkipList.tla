------------------------------ MODULE SkipList ------------------------------
(***************************************************************************)
(* The indexable skip list of quantile/skiplist, on the level of pointers: *)
(* node 0 is the head, -1 the tail; a node of level l has for each lane    *)
(* 1..l its successor and the distance to it.  The level of a new node is  *)
(* chosen nondeterministically, for the random source.  It refines the     *)
(* sorted multiset, and Select and Rank, which add up distances, answer as *)
(* defined for it.                                                         *)
(***************************************************************************)
EXTENDS Tour, Sorted
CONSTANTS N,        \* maximum number of values held
          V,        \* the values are 1..V
          L         \* the number of lanes

VARIABLES s,        \* node -> [v, next, w]
          op
vars == <<s, op>>

Front == 0
End == -1
Empty == (Front :> [v |-> 0, next |-> [i \in 1..L |-> End], w |-> [i \in 1..L |-> 1]])
Level(x, n) == Len(x[n].next)
Held(x) == Cardinality(DOMAIN x) - 1

\* the last node of lane i, from n on, whose value is less than v
RECURSIVE Before(_, _, _, _)
Before(x, n, i, v) ==
    LET m == x[n].next[i] IN IF m # End /\ x[m].v < v THEN Before(x, m, i, v) ELSE n
RECURSIVE Prevs(_, _, _, _)
Prevs(x, n, i, v) ==      \* of lanes 1..i, found from lane i downwards
    IF i = 0 THEN <<>>
    ELSE LET p == Before(x, n, i, v) IN Append(Prevs(x, p, i - 1, v), p)

\* the distance between a and b on lane i
RECURSIVE Along(_, _, _, _)
Along(x, a, b, i) == IF a = b THEN 0 ELSE x[a].w[i] + Along(x, x[a].next[i], b, i)

\* the widths of lanes 2..i of the new node
RECURSIVE Widths(_, _, _)
Widths(x, n, i) ==
    IF i > Level(x, n) THEN x
    ELSE LET d == Along(x, n, x[n].next[i], i - 1)
         IN  Widths([x EXCEPT ![n].w[i] = d], n, i + 1)

Add(x, v, level) ==
    LET ps == Prevs(x, Front, L, v)
        n == CHOOSE k \in 1..N : k \notin DOMAIN x /\ \A j \in 1..N : j \notin DOMAIN x => k <= j
        new == [v |-> v, next |-> [i \in 1..level |-> x[ps[i]].next[i]], w |-> [i \in 1..level |-> IF i = 1 THEN 1 ELSE 0]]
        linked == [k \in DOMAIN x |-> [x[k] EXCEPT
                      !.next = [i \in DOMAIN @ |-> IF i <= level /\ ps[i] = k THEN n ELSE @[i]],
                      !.w = [i \in DOMAIN @ |-> IF i > 1 /\ ps[i] = k THEN @[i] + 1 ELSE @[i]]]]
        wide == Widths((n :> new) @@ linked, n, 2)
    IN  [k \in DOMAIN wide |->
            IF k = n THEN wide[k]
            ELSE [wide[k] EXCEPT !.w = [i \in DOMAIN @ |->
                     IF i > 1 /\ i <= level /\ ps[i] = k THEN @[i] - wide[n].w[i] ELSE @[i]]]]

Remove(x, v) ==
    LET ps == Prevs(x, Front, L, v)
        n == x[ps[1]].next[1]
    IN  IF n = End \/ x[n].v # v THEN x
        ELSE [k \in DOMAIN x \ {n} |-> [x[k] EXCEPT
                 !.next = [i \in DOMAIN @ |-> IF i <= Level(x, n) /\ ps[i] = k THEN x[n].next[i] ELSE @[i]],
                 !.w = [i \in DOMAIN @ |->
                           IF ps[i] # k THEN @[i]
                           ELSE IF i <= Level(x, n) THEN @[i] + x[n].w[i] - 1 ELSE @[i] - 1]]]

\* positions are advanced in lane i as long as they do not exceed k
RECURSIVE SelectFrom(_, _, _, _, _), RankFrom(_, _, _, _, _)
SelectFrom(x, n, i, pos, k) ==
    IF i = 0 THEN n
    ELSE IF n # End /\ pos + x[n].w[i] <= k /\ x[n].next[i] # End
         THEN SelectFrom(x, x[n].next[i], i, pos + x[n].w[i], k)
         ELSE SelectFrom(x, n, i - 1, pos, k)
Select(x, k) == x[SelectFrom(x, Front, L, 0, k + 1)].v
RankFrom(x, n, i, r, v) ==
    IF i = 0 THEN r
    ELSE LET m == x[n].next[i] IN
         IF m # End /\ x[m].v < v THEN RankFrom(x, m, i, r + x[n].w[i], v)
         ELSE RankFrom(x, n, i - 1, r, v)
Rank(x, v) == RankFrom(x, Front, L, 0, v)

RECURSIVE Lane(_, _, _)
Lane(x, n, i) ==          \* the nodes of lane i after n
    LET m == x[n].next[i] IN IF m = End THEN <<>> ELSE <<m>> \o Lane(x, m, i)
Vals(x) == LET l == Lane(x, Front, 1) IN [i \in DOMAIN l |-> x[l[i]].v]
Show(x) == LET l == Lane(x, Front, 1) IN [i \in DOMAIN l |-> <<x[l[i]].v, Level(x, l[i])>>]

Init == s = Empty /\ op = <<"start">>
Next == \/ \E v \in 1..V, l \in 1..L : Held(s) < N /\ s' = Add(s, v, l) /\ op' = <<"add", v, l>>
        \/ \E v \in 1..V : s' = Remove(s, v) /\ op' = <<"remove", v>>
        \/ s' = Empty /\ op' = <<"clear">>
Spec == Init /\ [][Next]_vars
\* up to the names of nodes
View == <<Show(s), [i \in 1..L |-> LET l == <<Front>> \o Lane(s, Front, i) IN [j \in DOMAIN l |-> s[l[j]].w[i]]]>>

Order == IsSorted(Vals(s)) /\ Len(Vals(s)) = Held(s)
Lanes ==
    \A i \in 1..L : LET l == <<Front>> \o Lane(s, Front, i) IN
        /\ \A n \in DOMAIN s : n \in { l[j] : j \in DOMAIN l } <=> Level(s, n) >= i
        \* widths are distances on the lowest lane
        /\ \A j \in DOMAIN l :
              s[l[j]].w[i] = Along([n \in DOMAIN s |-> [s[n] EXCEPT !.w[1] = 1]], l[j], s[l[j]].next[i], 1)
Answers == LET vs == Vals(s) IN
    /\ \A k \in 0..Len(vs) - 1 : Select(s, k) = vs[k + 1]
    /\ \A v \in 0..V + 1 : Rank(s, v) = CountBelow(vs, v)
Refines == [][ Vals(s') = CASE op'[1] = "add" -> SortedAdd(Vals(s), op'[2])
                            [] op'[1] = "remove" -> SortedRemove(Vals(s), op'[2])
                            [] OTHER -> <<>> ]_vars
Edges == Emit(Show(s), op', Show(s'))
=============================================================================
