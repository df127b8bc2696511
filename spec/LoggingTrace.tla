---------------------------- MODULE LoggingTrace ----------------------------
EXTENDS Logging, TraceLib
GStart(cfg) == [global |-> cfg.global, logs |-> [i \in 1..Len(cfg.ids) |-> Fresh(cfg.ids[i])]]

One(s, g, r, obs) == IF Enabled(g, s.global, r.sev) THEN Len(obs.prints) = 1 /\ Follows(g, r, obs.prints[1].lines, obs.prints[1].traced)
                     ELSE obs.prints = <<>>
Want(s, g, r) == IF Enabled(g, s.global, r.sev) THEN [lines |-> Printed(g, r), traced |-> WithStack(g, r)] ELSE [lines |-> <<>>, traced |-> FALSE]

GStep(s, e) ==
  LET g == s.logs[e.in.g] r == e.in.r obs == e.obs IN
  CASE e.op = "global" -> [ok |-> TRUE, st |-> [s EXCEPT !.global = e.in.v], want |-> ""]
    [] e.op = "set" -> [ok |-> obs.prints = <<>> /\ obs.id = g.id, st |-> [s EXCEPT !.logs[e.in.g] = Set(g, e.in.what, e.in.v)], want |-> g.id]
    [] e.op = "rec" -> [ok |-> One(s, g, r, obs), st |-> s, want |-> Want(s, g, r)]
    [] e.op = "guard" ->
         LET q == Guarded(r, e.in.sev)
             p == [q EXCEPT !.at = obs.at]     \* the place of a panic is not part of the promise
         IN  [ok |-> /\ obs.ret = e.in.value
                     /\ IF e.in.value = "nil" THEN obs.prints = <<>> ELSE One(s, g, p, obs),
              st |-> s, want |-> IF e.in.value = "nil" THEN <<>> ELSE Want(s, g, p)]
    (* records from several goroutines at once: each is printed whole, once *)
    [] e.op = "burst" ->
         LET rs == e.in.rs
             on == { i \in DOMAIN rs : Enabled(g, s.global, rs[i].sev) }
         IN  [ok |-> /\ Len(obs.prints) = Len(rs) - Len(SelectSeq(rs, LAMBDA x : ~Enabled(g, s.global, x.sev)))
                     /\ \A i \in on : \E j \in DOMAIN obs.prints : Follows(g, rs[i], obs.prints[j].lines, obs.prints[j].traced),
              st |-> s, want |-> [i \in on |-> Printed(g, rs[i])]]
=============================================================================
