----------------------------- MODULE ServeTrace -----------------------------
EXTENDS Serve, TraceLib
Announce(a) == [sev |-> "info", at |-> TRUE, mode |-> TRUE, plain |-> TRUE, err |-> FALSE]
Ended       == [sev |-> "emergency", at |-> FALSE, mode |-> FALSE, plain |-> TRUE, err |-> TRUE]
(* the records, of which colours are not the matter in development mode and  *)
(* an end need not (but may) name address and mode                           *)
Fits(a, got, want) ==
  /\ Len(got) = Len(want)
  /\ \A n \in DOMAIN want : /\ got[n].sev = want[n].sev
                            /\ want[n].at => got[n].at
                            /\ want[n].mode => got[n].mode
                            /\ want[n].err => got[n].err
                            /\ a.mode = "dev" \/ got[n].plain
GStart(cfg) == <<>>
GStep(as, e) ==
  LET in == e.in IN
  CASE e.op = "app" -> [ok |-> TRUE, st |-> Append(as, App(in.own, in.imp, in.env)), want |-> ""]
    [] e.op = "move" -> [ok |-> TRUE, st |-> Move(as, in.a, in.addr, in.port), want |-> ""]
    [] e.op = "run" ->
         LET w == Refusal(as, in.a)
             recs == <<Announce(as[in.a])>> \o (IF w = "" THEN <<>> ELSE <<Ended>>)
         IN  [ok |-> e.obs.ret = w /\ Fits(as[in.a], e.obs.recs, recs), st |-> Run(as, in.a), want |-> [ret |-> w, recs |-> recs]]
    [] e.op = "get" -> LET w == Who(as, in.addr, in.port) IN [ok |-> e.obs.by = w, st |-> as, want |-> w]
    [] e.op = "begin" -> [ok |-> e.obs.entered, st |-> Begin(as, in.a, in.r), want |-> TRUE]
    [] e.op = "finish" ->
         \* what a close has cut off is not claimed
         LET i == CHOOSE j \in DOMAIN as : in.r \in as[j].open
         IN  [ok |-> in.r \in as[i].cut \/ e.obs.whole, st |-> Finish(as, i, in.r), want |-> TRUE]
    [] e.op \in {"shutdown", "close"} ->
         LET up == as[in.a].life = "up"
             w  == IF up THEN "closed" ELSE "none"
             recs == IF up THEN <<Ended>> ELSE <<>>
         IN  [ok |-> e.obs.ret = w /\ Fits(as[in.a], e.obs.recs, recs),
              st |-> IF e.op = "close" THEN Close(as, in.a) ELSE Shutdown(as, in.a), want |-> [ret |-> w, recs |-> recs]]
=============================================================================
