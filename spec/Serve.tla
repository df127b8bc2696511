------------------------------- MODULE Serve -------------------------------
(* Running applications (C34): each serves at its configured address from    *)
(* the start of Run until its server is shut down or closed.                 *)
(* An application is                                                         *)
(*   [addr, port, mode, life, open, cut]                                     *)
(* life: "new" until it serves, "up" while it does, "down" for ever after;   *)
(* open are its requests in progress, cut those whose connection a close     *)
(* ended.  Address "" means every address.                                   *)
EXTENDS Integers, Sequences, FiniteSets

First(a, b, c, d) == IF a # "" THEN a ELSE IF b # "" THEN b ELSE IF c # "" THEN c ELSE d
(* settings: given to the application itself, imported, of the environment   *)
App(own, imp, env) ==
  [addr |-> IF own.any THEN "" ELSE First(own.addr, imp.addr, env.addr, "127.0.0.1"),
   port |-> First(own.port, imp.port, env.port, "3000"),
   mode |-> First(own.mode, imp.mode, env.mode, "prod"),
   life |-> "new", open |-> {}, cut |-> {}]

Usable(port) == port \notin {"99999", "x"}
Overlap(a, b) == a.port = b.port /\ (a.addr = b.addr \/ a.addr = "" \/ b.addr = "")
Taken(as, i) == \E j \in DOMAIN as \ {i} : as[j].life = "up" /\ Overlap(as[i], as[j])
(* how Run ends at once, "" when it serves *)
Refusal(as, i) == CASE as[i].life = "down" -> "closed"
                    [] ~Usable(as[i].port) -> "bad"
                    [] Taken(as, i) -> "busy"
                    [] OTHER -> ""
Run(as, i)      == IF Refusal(as, i) = "" THEN [as EXCEPT ![i].life = "up"] ELSE as
(* its settings are those at the time it is run                             *)
Move(as, i, addr, port) == [as EXCEPT ![i].addr = addr, ![i].port = port]
Begin(as, i, r) == [as EXCEPT ![i].open = @ \cup {r}]
Finish(as, i, r) == [as EXCEPT ![i].open = @ \ {r}]
Shutdown(as, i) == [as EXCEPT ![i].life = "down"]
Close(as, i)    == [as EXCEPT ![i].life = "down", ![i].cut = @ \cup as[i].open]
(* who answers at an address, 0 when nobody listens there *)
Who(as, addr, port) ==
  LET S == { i \in DOMAIN as : as[i].life = "up" /\ as[i].port = port /\ as[i].addr \in {addr, ""} }
  IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
=============================================================================
