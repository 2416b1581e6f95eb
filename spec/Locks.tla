------------------------------- MODULE Locks -------------------------------
(***************************************************************************)
(* Calls that run concurrently, as sequences of the operations by which    *)
(* they synchronise, recorded from the real library: all interleavings.    *)
(*                                                                         *)
(* A world is a sequence of programs.  A program is a sequence of          *)
(* goroutines, the first of which makes the call and the others of which   *)
(* are started by it.  A goroutine is a sequence of operations [op, l, n]  *)
(* on the lock or counter l; l < 0 are those that every call has for       *)
(* itself.  Locks for reading and writing are those of package sync: a     *)
(* writer that has announced itself keeps new readers out, also those that *)
(* read already, and its Unlock lets those in that have come meanwhile.    *)
(*                                                                         *)
(* Alive: until all calls have returned one of them can go on.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Threads

Worlds == JsonDeserialize(IOEnv.PROGRAMS)

VARIABLES
    w,      \* the world
    prog,   \* the program of each thread
    pc,     \* of each goroutine of each thread: 0 not started, else its next operation
    lk,     \* locks: readers, the announced writer, and the readers that wait for it
    wg,     \* counters
    last    \* who has made a step that is not a release
vars == <<w, prog, pc, lk, wg, last>>
View == <<w, prog, pc, lk, wg>>

T == 1..Threads
Prog(t) == Worlds[w][prog[t]]
Ids == UNION { { <<t, g>> : g \in DOMAIN Prog(t) } : t \in T }
Op(id) == Prog(id[1])[id[2]][pc[id[1]][id[2]]]
Active(id) == LET p == pc[id[1]][id[2]] IN p > 0 /\ p <= Len(Prog(id[1])[id[2]])

Free == [rd |-> 0, wr |-> <<>>, q |-> {}]
Name(id, o) == IF o.l < 0 THEN <<id[1], o.l>> ELSE <<0, o.l>>
Lk(x) == IF x \in DOMAIN lk THEN lk[x] ELSE Free
Count(x) == IF x \in DOMAIN wg THEN wg[x] ELSE 0
Put(f, x, v) == (x :> v) @@ f

Init ==
    /\ w \in DOMAIN Worlds
    /\ prog \in [T -> DOMAIN Worlds[w]]
    /\ \A i, j \in T : i < j => prog[i] <= prog[j]
    /\ pc = [t \in T |-> [g \in DOMAIN Worlds[w][prog[t]] |-> IF g = 1 THEN 1 ELSE 0]]
    /\ lk = <<>> /\ wg = <<>> /\ last = <<>>

Releases == {"unlock", "munlock", "runlock", "add", "go"}

\* the goroutines ids make a step
Stepped(ids) == [t \in T |-> [g \in DOMAIN pc[t] |-> pc[t][g] + IF <<t, g>> \in ids THEN 1 ELSE 0]]

Waits(id) == \E x \in DOMAIN lk : id \in lk[x].q
Enabled(id) ==
    /\ Active(id) /\ ~Waits(id)
    /\ LET o == Op(id)
           l == Lk(Name(id, o))
       IN  CASE o.op = "announce" -> l.wr = <<>>
             [] o.op = "lock" -> l.rd = 0 /\ l.wr = id
             [] o.op = "mlock" -> l.wr = <<>>
             [] o.op = "wait" -> Count(Name(id, o)) = 0
             [] OTHER -> TRUE

Step(id) ==
    LET o == Op(id)
        x == Name(id, o)
        l == Lk(x)
        set(l2) == lk' = Put(lk, x, l2)
    IN  /\ Enabled(id)
        /\ last' = id
        /\ UNCHANGED <<w, prog>>
        /\ CASE o.op = "rlock" ->
                  /\ IF l.wr = <<>> THEN set([l EXCEPT !.rd = @ + 1]) /\ pc' = Stepped({id})
                     ELSE set([l EXCEPT !.q = @ \cup {id}]) /\ pc' = pc
                  /\ UNCHANGED wg
             [] o.op \in {"announce", "mlock"} ->
                  set([l EXCEPT !.wr = id]) /\ pc' = Stepped({id}) /\ UNCHANGED wg
             [] o.op = "unlock" ->
                  /\ set([rd |-> Cardinality(l.q), wr |-> <<>>, q |-> {}])
                  /\ pc' = Stepped({id} \cup l.q)
                  /\ UNCHANGED wg
             [] o.op = "munlock" -> set([l EXCEPT !.wr = <<>>]) /\ pc' = Stepped({id}) /\ UNCHANGED wg
             [] o.op = "runlock" -> set([l EXCEPT !.rd = @ - 1]) /\ pc' = Stepped({id}) /\ UNCHANGED wg
             [] o.op = "add" ->
                  wg' = Put(wg, x, Count(x) + o.n) /\ pc' = Stepped({id}) /\ UNCHANGED lk
             [] o.op = "go" ->
                  /\ pc' = [Stepped({id}) EXCEPT ![id[1]][o.n] = 1]
                  /\ UNCHANGED <<lk, wg>>
             [] OTHER -> pc' = Stepped({id}) /\ UNCHANGED <<lk, wg>>

\* Operations that never wait go first: they commute with those of others.
Next ==
    LET rs == { id \in Ids : Active(id) /\ ~Waits(id) /\ Op(id).op \in Releases }
    IN  IF rs # {} THEN Step(CHOOSE id \in rs : TRUE) ELSE \E id \in Ids : Step(id)
Spec == Init /\ [][Next]_vars

Done == \A id \in Ids : pc[id[1]][id[2]] = Len(Prog(id[1])[id[2]]) + 1
Alive == Done \/ \E id \in Ids : Enabled(id)
Sane ==
    /\ \A x \in DOMAIN lk : lk[x].rd >= 0
    /\ \A x \in DOMAIN wg : wg[x] >= 0
=============================================================================
