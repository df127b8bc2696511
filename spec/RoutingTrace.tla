---------------------------- MODULE RoutingTrace ----------------------------
(* Recorded registrations and requests against Routing. *)
EXTENDS Routing, TraceLib

RStart(cfg) == Empty

RStep(s, e) ==
  CASE e.op = "reg"    -> LET t == Register(s, e.in.tree)
                          IN  [ok |-> e.obs.panic = t.bad, st |-> t, want |-> [panic |-> t.bad]]
    [] e.op = "filter" -> [ok |-> TRUE, st |-> AppFilter(s, e.in.ids), want |-> <<>>]
    [] e.op = "req"    -> LET w == Serve(s, e.in.parts, e.in.method)
                          IN  [ok |-> /\ e.obs.found = w.found /\ e.obs.act = w.act /\ e.obs.meth = w.meth
                                      /\ e.obs.path = w.path /\ e.obs.params = w.params /\ e.obs.log = w.log
                                      /\ e.obs.panic = "",
                               st |-> s, want |-> w]
=============================================================================
