----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading recorded traces.  A trace is [cfg |-> ..., ev |-> events]; the  *)
(* trace specifications step through the events of every trace, take the   *)
(* action of the specification that the event names, and stop at the first *)
(* event whose outcome that action does not allow.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* One line per trace; the last event on success is 0.
Report(t, i, clause) == PrintT(<<"VERDICT", t, i, clause>>)
=============================================================================
