----------------------------- MODULE WorkerTrace -----------------------------
(* Recorded concurrent executions of the pool: a trace is accepted when     *)
(* some placement of the silent steps explains it.                          *)
EXTENDS Worker, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Lim == IOEnv.PROP = "C14"
Err == IOEnv.PROP = "C15"

VARIABLES tid, l, p
vars == <<tid, l, p>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ p = Pool0(Traces[tid].cfg.n)

(* a crash or deadlock of the pool itself is C14's *)
Broken == IF Errors THEN {[n |-> 0]} ELSE {}
Step(e) ==
  CASE p.n = 0 -> {p}
    [] e.op = "sub"    -> Sub(p, e.in.i)
    [] e.op = "subret" -> SubRet(p, e.in.i)
    [] e.op = "start"  -> Begin(p, e.in.i)
    [] e.op = "end"    -> End(p, e.in.i, e.in.err)
    [] e.op = "wait"   -> Wait(p, e.in.i)
    [] e.op = "waitret" -> IF e.obs.panic THEN Broken ELSE WaitRet(p, e.in.i, e.obs.err)
    [] e.op = "close"  -> CloseCall(p, e.in.i)
    [] e.op = "closeret" -> CloseRet(p, e.in.i)
    [] e.op = "quiet"  -> Quiet(p)
    [] e.op = "finished" -> IF In(p, {"call", "acc", "run"}) = {} THEN {p} ELSE {}
    [] OTHER -> Broken                 \* stuck

Next ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ p' \in Step(Traces[tid].ev[l])
     /\ l' = l + 1
     /\ UNCHANGED tid
     /\ l' = Len(Traces[tid].ev) + 1 => PrintT("ACCEPT " \o ToJson([tid |-> tid]))
  \/ /\ l <= Len(Traces[tid].ev)
     /\ p.n # 0 /\ p' \in Silent(p)
     /\ UNCHANGED <<tid, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
