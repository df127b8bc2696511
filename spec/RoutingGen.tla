----------------------------- MODULE RoutingGen -----------------------------
(* Behaviours of RoutingMC as scenarios: every registration sequence of the *)
(* given length (or a random sample of longer ones) with every request.     *)
EXTENDS RoutingMC, Json
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == \E p \in Patterns : Add(p, "GET", "x") /\ hist' = Append(hist, p)
GSpec == GInit /\ [][GNext]_<<s, n, hist>>
Emit == (n = MaxRoutes \/ s.bad) => PrintT("SCEN " \o ToJson([routes |-> hist, reqs |-> Requests]))
=============================================================================
