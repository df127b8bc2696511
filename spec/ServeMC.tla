------------------------------ MODULE ServeMC ------------------------------
EXTENDS Serve, TLC, Json
CONSTANTS K, Addrs, Ports
VARIABLES as, hist, n
vars == <<as, hist, n>>
None == [any |-> FALSE, addr |-> "", port |-> "", mode |-> ""]
Cfg(a, p) == [None EXCEPT !.addr = a, !.port = p, !.any = a = "*"]
Init == /\ \E a1, a2 \in Addrs, p1, p2 \in Ports :
             as = <<App(Cfg(a1, p1), None, None), App(Cfg(a2, p2), None, None)>>
        /\ hist = <<[op |-> "app", i |-> 1, addr |-> as[1].addr, port |-> as[1].port],
                    [op |-> "app", i |-> 2, addr |-> as[2].addr, port |-> as[2].port]>>
        /\ n = 0
Do(op, i, nxt) == as' = nxt /\ hist' = Append(hist, [op |-> op, i |-> i, addr |-> "", port |-> ""])
Next ==
  /\ Len(hist) < K + 2
  /\ \E i \in DOMAIN as :
       \/ as[i].life # "up" /\ Do("run", i, Run(as, i)) /\ n' = n
       \/ /\ as[i].life = "new" /\ Taken(as, i) /\ n' = n
          /\ \E p \in Ports \ {as[i].port} :
               /\ as' = Move(as, i, as[i].addr, p)
               /\ hist' = Append(hist, [op |-> "move", i |-> i, addr |-> as[i].addr, port |-> p])
       \/ as[i].life = "up" /\ Cardinality(as[i].open) < 2 /\ Do("begin", i, Begin(as, i, n + 1)) /\ n' = n + 1
       \/ \E r \in as[i].open : Do("finish", r, Finish(as, i, r)) /\ n' = n
       \/ as[i].life # "down" /\ Do("shutdown", i, Shutdown(as, i)) /\ n' = n
       \/ as[i].life # "down" /\ Do("close", i, Close(as, i)) /\ n' = n
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = K + 2 => PrintT("SCEN " \o ToJson(hist))
(* an address has one owner; who serves is the one which was started there *)
Exclusive == \A i, j \in DOMAIN as : i # j /\ as[i].life = "up" /\ as[j].life = "up" => ~Overlap(as[i], as[j])
Owner == \A i \in DOMAIN as : as[i].life = "up" => \A a \in {"127.0.0.1", "127.0.0.2"} :
            as[i].addr \in {a, ""} => Who(as, a, as[i].port) = i
(* a server which is down stays down; a shutdown cuts nothing off *)
Final == [][\A i \in DOMAIN as : /\ as[i].life = "down" => as'[i].life = "down"
                                 /\ as'[i].cut # as[i].cut => hist'[Len(hist')].op = "close"]_vars
=============================================================================
