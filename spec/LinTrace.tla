------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Validation of concurrent histories of the real library against Metric.  *)
(*                                                                         *)
(* A history has the calls (events of Metric with the thread t that made   *)
(* them), the sequence ev of their starts and returns, how the execution   *)
(* ended, and what is asked of it (mode):                                  *)
(*   lin   every call can take effect at one instant between its start and *)
(*         its return, such that the results are legal in this order; there*)
(*         are no data races and no crashes                                *)
(*   term  every call returns                                              *)
(*   both                                                                  *)
(*                                                                         *)
(* Explicit locks are part of the state: a call takes effect only when no  *)
(* other thread holds a lock that excludes it.  Calls of unsafe functions  *)
(* are made by the holders of locks.                                       *)
(***************************************************************************)
EXTENDS Metric, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
    tid,     \* the history
    pos,     \* the next start or return
    st,      \* the state of the library
    open,    \* the calls that have started and have not taken effect
    lk       \* the explicit locks: by name of the core, its writer and its readers
vars == <<tid, pos, st, open, lk>>

H == Traces[tid]

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ st = Start /\ open = {} /\ lk = <<>>

------------------------------------------------------------------ \* locks

Nobody == -1
Free == [w |-> Nobody, rd |-> {}]
Lk(id) == IF id \in DOMAIN lk THEN lk[id] ELSE Free

\* the name of what an object is locked by
Guard(id) ==
    IF id \in DOMAIN st.c /\ id \notin DOMAIN st.m THEN id
    ELSE IF id \in DOMAIN st.m /\ st.m[id].kind \in CoreKinds THEN st.m[id].core
    ELSE id
Guards(id) ==
    IF id \in DOMAIN st.m /\ st.m[id].kind \in AggKinds
    THEN { Guard(m) : m \in Members(st, id) } ELSE { Guard(id) }

Writes == {"push", "pushn", "clear"}
Reads == {"val", "count", "mean", "sum"}
UnsafeCall(e) == e.op = "uclear" \/ e.unsafe
\* Do the locks of others allow the call to take effect?
Admits(e) ==
    CASE e.op = "lock" -> LET l == Lk(e.o) IN l.w = Nobody /\ l.rd = {}
      [] e.op = "rlock" -> Lk(e.o).w = Nobody
      [] e.op \in Writes /\ ~UnsafeCall(e) ->
            \A g \in Guards(e.o) : LET l == Lk(g) IN l.w = Nobody /\ l.rd = {}
      [] e.op \in Reads /\ ~UnsafeCall(e) -> \A g \in Guards(e.o) : Lk(g).w = Nobody
      [] OTHER -> TRUE
LocksAfter(e) ==
    CASE e.op = "lock" -> Put(lk, e.o, [w |-> e.t, rd |-> {}])
      [] e.op = "unlock" -> Put(lk, e.o, Free)
      [] e.op = "rlock" -> Put(lk, e.o, [Lk(e.o) EXCEPT !.rd = @ \cup {e.t}])
      [] e.op = "runlock" -> Put(lk, e.o, [Lk(e.o) EXCEPT !.rd = @ \ {e.t}])
      [] OTHER -> lk

------------------------------------------------------------------ \* steps

Lin == H.mode \in {"lin", "both"}
Term == H.mode \in {"term", "both"}
\* Did the execution end in a way that may be allowed?
EndedWell ==
    /\ Term => H.end \notin {"deadlock", "hang"}
    /\ Lin => H.end \in {"ok", "deadlock", "hang"}
End == Len(H.ev)

Begin ==
    /\ pos <= End /\ ~H.ev[pos].ret
    /\ open' = open \cup {H.ev[pos].i}
    /\ pos' = pos + 1
    /\ UNCHANGED <<tid, st, lk>>

\* it suffices to let calls take effect when a call that has not done so returns
TakeEffect ==
    /\ Lin
    /\ pos <= End /\ H.ev[pos].ret /\ H.ev[pos].i \in open
    /\ \E i \in open :
          LET e == H.calls[i]
          IN  \* a call that never returned may have taken effect
              /\ (Admits(e) /\ IF "r" \in DOMAIN e THEN Legal(st, e) ELSE e.op \in Writes) = TRUE
              /\ st' = After(st, e)
              /\ lk' = LocksAfter(e)
              /\ open' = open \ {i}
    /\ UNCHANGED <<tid, pos>>

Return ==
    /\ pos <= End /\ H.ev[pos].ret
    /\ IF Lin THEN H.ev[pos].i \notin open /\ UNCHANGED open
              ELSE open' = open \ {H.ev[pos].i}
    /\ pos' = pos + 1
    /\ UNCHANGED <<tid, st, lk>>

Next == EndedWell /\ (Begin \/ TakeEffect \/ Return)
Spec == Init /\ [][Next]_vars

Good == /\ pos = End + 1
        /\ EndedWell
        /\ H.mode = "term" => (open = {} \/ H.end \notin {"ok", "deadlock", "hang"})
Report == Good => PrintT(<<"ACCEPTED", tid>>)
=============================================================================
