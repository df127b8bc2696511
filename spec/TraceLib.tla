------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Validation of recorded executions for the sequential components.        *)
(*                                                                         *)
(* TRACE_FILE holds one JSON object per line: one recorded execution, with *)
(* its configuration and its events (operation, arguments, observation).   *)
(* A component specification supplies                                      *)
(*    Start(cfg)     the specification state before the first event        *)
(*    Step(st, e)    [ok, st, want]: whether event e, with the observation *)
(*                   recorded in it, is the step the specification allows  *)
(*                   in st, the state after it, and the observation the    *)
(*                   specification demands.                                *)
(* A rejected event is printed and ends its trace; the runner counts the   *)
(* states to make sure that every line of every trace was visited.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Start(_), Step(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, st

traceVars == <<tid, l, st>>

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ st = Start(Traces[tid].cfg)

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l]
         r == Step(st, e)
     IN  IF r.ok
           THEN /\ l' = l + 1
                /\ st' = r.st
           ELSE /\ PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l, want |-> r.want]))
                /\ l' = Len(Traces[tid].ev) + 2
                /\ st' = st
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_traceVars
=============================================================================
