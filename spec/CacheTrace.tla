----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, TraceLib

GStart(cfg) == [now |-> 0, m |-> [i \in 1..cfg.keys |-> {Absent}]]
Narrow(rs, obs) == { r.e : r \in { x \in rs : x.obs = obs } }
Wants(rs) == { r.obs : r \in rs }
GStep(s, e) ==
  LET o == e.in
  IN CASE e.op = "adv" -> [ok |-> TRUE, st |-> [s EXCEPT !.now = @ + o.s], want |-> 0]
       [] e.op = "rest" -> [ok |-> e.obs.held = 0, st |-> s, want |-> [held |-> 0]]   \* connections are given back
       [] e.op = "crash" -> [ok |-> FALSE, st |-> s, want |-> "the call returns"]
       [] e.op = "gc" -> LET ok == /\ e.obs.r = "ok" \/ (o.fault # "" /\ e.obs.r = "err")
                                   \* what a back end does not drop by itself is gone
                                   /\ e.obs.r = "ok" /\ o.fault = "" => e.obs.stale = 0
                         IN  [ok |-> ok, st |-> s, want |-> "ok"]
       [] e.op = "clean" ->
            LET m2 == [k \in DOMAIN s.m |-> UNION { Narrow(CleanResults(x, o), e.obs) : x \in s.m[k] }]
            IN  [ok |-> \A k \in DOMAIN m2 : m2[k] # {}, st |-> [s EXCEPT !.m = m2], want |-> R("ok")]
       [] OTHER ->
            LET rs == UNION { Results(x, o, s.now) : x \in s.m[o.key] }
                es == Narrow(rs, e.obs)
            IN  [ok |-> es # {}, st |-> [s EXCEPT !.m[o.key] = es], want |-> Wants(rs)]
=============================================================================
