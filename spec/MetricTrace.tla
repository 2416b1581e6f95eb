---------------------------- MODULE MetricTrace ----------------------------
(***************************************************************************)
(* Validation of traces of the real library against Metric.  Every trace   *)
(* is an initial state; a step consumes the next event if it is legal.     *)
(***************************************************************************)
EXTENDS Metric, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, st
vars == <<tid, pos, st>>

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ st = Start

Consume ==
    /\ pos >= 1 /\ pos <= Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[pos]
       IN  IF Legal(st, e)
           THEN st' = After(st, e) /\ pos' = pos + 1
           ELSE /\ PrintT(<<"REJECTED", tid, pos>>)
                /\ st' = Start /\ pos' = -pos
    /\ UNCHANGED tid

Next == Consume
Spec == Init /\ [][Next]_vars

\* every trace that is not rejected is reported as accepted
Report == pos = Len(Traces[tid].ev) + 1 => PrintT(<<"ACCEPTED", tid>>)
=============================================================================
