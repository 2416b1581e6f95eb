---------------------------- MODULE IndexedHeap ----------------------------
(***************************************************************************)
(* The indexed binary heap of quantile/heap over container/heap: an array  *)
(* of items, each of which knows its index, so that it can be updated or   *)
(* removed wherever it has moved to.                                       *)
(***************************************************************************)
EXTENDS Tour, FiniteSets
CONSTANTS N, V
VARIABLES a,        \* the array: <<item, value>>
          idx,      \* item -> its index in a, 0 if it is in no heap
          op
vars == <<a, idx, op>>

Items == 1..N
Less(s, i, j) == s[i][2] < s[j][2]
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RECURSIVE Up(_, _), Down(_, _, _)
Up(s, j) ==
    LET i == j \div 2 IN IF j = 1 \/ ~Less(s, j, i) THEN s ELSE Up(Swap(s, i, j), i)
Down(s, i, n) ==      \* in the first n elements
    LET l == 2 * i
        j == IF l + 1 <= n /\ Less(s, l + 1, l) THEN l + 1 ELSE l
    IN  IF l > n \/ ~Less(s, j, i) THEN s ELSE Down(Swap(s, i, j), j, n)
\* down, or up if that changes nothing
Sift(s, i, n) == LET t == Down(s, i, n) IN IF t = s THEN Up(s, i) ELSE t

Push(s, it, v) == Up(Append(s, <<it, v>>), Len(s) + 1)
Pop(s) == LET n == Len(s) IN SubSeq(Down(Swap(s, 1, n), 1, n - 1), 1, n - 1)
Update(s, i, v) == Sift([s EXCEPT ![i][2] = v], i, Len(s))
Remove(s, i) ==
    LET n == Len(s) IN
    IF i = n THEN SubSeq(s, 1, n - 1) ELSE SubSeq(Sift(Swap(s, i, n), i, n - 1), 1, n - 1)

Index(s) == [it \in Items |->
                IF \E i \in DOMAIN s : s[i][1] = it THEN CHOOSE i \in DOMAIN s : s[i][1] = it ELSE 0]

Init == a = <<>> /\ idx = [it \in Items |-> 0] /\ op = <<"start">>
Next == /\ \/ \E it \in Items, v \in 1..V :
                 /\ idx[it] = 0
                 /\ a' = Push(a, it, v) /\ op' = <<"hpush", it, v>>
           \/ a # <<>> /\ a' = Pop(a) /\ op' = <<"hpop">>
           \/ \E it \in Items, v \in 1..V :
                 idx[it] # 0 /\ a' = Update(a, idx[it], v) /\ op' = <<"hupdate", it, v>>
           \/ \E it \in Items :
                 idx[it] # 0 /\ a' = Remove(a, idx[it]) /\ op' = <<"hremove", it>>
        /\ idx' = Index(a')
Spec == Init /\ [][Next]_vars
View == a

HeapOrder == \A i \in 2..Len(a) : a[i \div 2][2] <= a[i][2]
Content(s) == { s[i] : i \in DOMAIN s }
Refines == [][ CASE op'[1] = "hpush" -> Content(a') = Content(a) \cup {<<op'[2], op'[3]>>}
                 [] op'[1] = "hpop" -> Content(a') = Content(a) \ {a[1]}
                 [] op'[1] = "hupdate" ->
                      Content(a') = { x \in Content(a) : x[1] # op'[2] } \cup {<<op'[2], op'[3]>>}
                 [] OTHER -> Content(a') = { x \in Content(a) : x[1] # op'[2] } ]_vars
Edges == Emit(a, op', a')
=============================================================================
