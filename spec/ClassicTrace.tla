----------------------------- MODULE ClassicTrace -----------------------------
EXTENDS Classic, TraceLib

GStart(cfg) == [c |-> cfg, ids |-> {}]
IdOk(s, e) ==
  LET y == e.obs.rid IN
  IF e.in.cidn >= 10 /\ e.in.cidn <= 32 THEN y = e.in.cid
  ELSE Len(y) >= 10 /\ Len(y) <= 32 /\ y \notin s.ids
Obs(s, e) ==
  LET r == Outcome(s.c, e.in.act)
  IN [recs |-> r.recs, marks |-> r.marks, status |-> Final(r), body |-> r.body, timed |-> r.logged, escaped |-> ""]
GStep(s, e) ==
  LET w == Obs(s, e)
      ok == /\ \A f \in DOMAIN w : w[f] = e.obs[f]
            /\ IF w.timed THEN IdOk(s, e) ELSE e.obs.rid = ""
  IN [ok |-> ok, st |-> [s EXCEPT !.ids = @ \cup {e.obs.rid}], want |-> w]
=============================================================================
