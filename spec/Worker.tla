------------------------------- MODULE Worker -------------------------------
(***************************************************************************)
(* The bounded worker pool as its users see it (C14, C15).  Calls take     *)
(* effect at one moment between call and return.                           *)
(*   t[i]   a task: "" unknown, "call" submitted, "acc" accepted,          *)
(*          "rej" refused, "run", "end" (returned), "done" (settled)       *)
(*   bad[i] it returned an error                                           *)
(*   w[j]   a wait: st "call" | "got", pre: tasks accepted before it,      *)
(*          err: the failure it will return                                *)
(*   err    the failure that closed the pool, until a wait takes it        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Limits, Errors         \* check C14 / C15 conditions

Pool0(n) == [n |-> n, closed |-> FALSE, shut |-> FALSE, t |-> <<>>, bad |-> {}, ret |-> {}, w |-> <<>>, c |-> {}, err |-> 0]

In(p, S) == { i \in DOMAIN p.t : p.t[i] \in S }
Running(p) == Cardinality(In(p, {"run"}))
SetT(p, i, x) == [p EXCEPT !.t = (i :> x) @@ @]

(* silent steps *)
Accept(p, i) == IF p.t[i] = "call" /\ ~(Errors /\ p.closed) THEN {SetT(p, i, "acc")} ELSE {}
Refuse(p, i) == IF p.t[i] = "call" /\ (IF Errors THEN p.closed ELSE p.shut) THEN {SetT(p, i, "rej")} ELSE {}
Shut(p, c)   == IF c \in p.c /\ ~p.closed THEN {[p EXCEPT !.closed = TRUE, !.c = @ \ {c}]} ELSE {}
Settle(p, i) == IF p.t[i] # "end" THEN {}
                ELSE IF i \in p.bad /\ ~p.closed THEN {[SetT(p, i, "done") EXCEPT !.closed = TRUE, !.err = i]}
                ELSE {SetT(p, i, "done")}
Finish(p, j) == IF p.w[j].st = "call" /\ \A i \in p.w[j].pre : p.t[i] = "done"
                THEN {[p EXCEPT !.w[j] = [st |-> "got", pre |-> {}, err |-> p.err], !.err = 0]} ELSE {}
Silent(p) == UNION { Accept(p, i) \cup Refuse(p, i) \cup Settle(p, i) : i \in DOMAIN p.t }
             \cup UNION { Shut(p, c) : c \in p.c } \cup UNION { Finish(p, j) : j \in DOMAIN p.w }

(* observable steps *)
Sub(p, i)      == {SetT(p, i, "call")}
SubRet(p, i)   == IF p.t[i] \in {"acc", "rej", "run", "end", "done"} THEN {[p EXCEPT !.ret = @ \cup {i}]} ELSE {}
Begin(p, i)    == IF p.t[i] = "acc" /\ (Limits => Running(p) < p.n) THEN {SetT(p, i, "run")} ELSE {}
(* (a task without an error has no effect when it settles: it does so at once) *)
End(p, i, e)   == IF p.t[i] = "run"
                  THEN {[SetT(p, i, IF e THEN "end" ELSE "done") EXCEPT !.bad = IF e THEN @ \cup {i} ELSE @, !.shut = @ \/ e]} ELSE {}
Wait(p, j)     == {[p EXCEPT !.w = (j :> [st |-> "call", err |-> 0,
                                           pre |-> { i \in In(p, {"acc", "run", "end", "done"}) : i \in p.ret }]) @@ @]}
WaitRet(p, j, e) == IF p.w[j].st = "got" /\ (Errors => p.w[j].err = e) THEN {[p EXCEPT !.w[j].st = "ret"]} ELSE {}
CloseCall(p, c) == {[p EXCEPT !.c = @ \cup {c}, !.shut = TRUE]}
CloseRet(p, c) == IF c \notin p.c \/ p.closed THEN {[p EXCEPT !.c = @ \ {c}]} ELSE {}
(* nothing more happens by itself: submissions only wait for a full pool,   *)
(* accepted tasks run, waits only for tasks                                 *)
Quiet(p) ==
  IF /\ (Limits /\ Running(p) < p.n) => In(p, {"call", "acc"}) = {}
     /\ In(p, {"end"}) = {}
     /\ Limits => \A j \in DOMAIN p.w : p.w[j].st = "call" => In(p, {"run", "call", "acc"}) # {}
  THEN {p} ELSE {}
=============================================================================
