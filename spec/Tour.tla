-------------------------------- MODULE Tour --------------------------------
(* Output of the state graph of a model: one line for each transition.  The  *)
(* framework covers all transitions with sequences of calls, executes them   *)
(* on the real library, and validates what it did with MetricTrace.          *)
EXTENDS Integers, Sequences, TLC
Emit(from, op, to) ==
    PrintT("EDGE|" \o ToString(from) \o "|" \o ToString(op) \o "|" \o ToString(to))
=============================================================================
