---------------------------- MODULE IsolationTrace ----------------------------
(* First every request of the scenario is recorded alone, then all of them  *)
(* together.  An event is right when the request's own state explains it,   *)
(* and in the concurrent part also when it is what happened alone.          *)
EXTENDS Isolation, TraceLib

GStart(cfg) == [rs |-> [i \in 1..Len(cfg.reqs) |-> Req0], exp |-> [i \in 1..Len(cfg.reqs) |-> <<>>],
                reqs |-> cfg.reqs, alone |-> TRUE]

GStep(s, e) ==
  CASE e.op = "together" -> [ok |-> TRUE, want |-> 0, st |-> [s EXCEPT !.rs = [i \in 1..Len(s.reqs) |-> Req0], !.alone = FALSE]]
    [] e.op = "app" -> [ok |-> e.obs = AppSees, st |-> s, want |-> AppSees]
    [] e.op = "end" -> [ok |-> \A i \in 1..Len(s.reqs) : s.exp[i] = <<>>, st |-> s, want |-> s.exp]
    [] e.op \in {"stuck", "crash"} -> [ok |-> FALSE, st |-> s, want |-> "the requests end"]
    [] OTHER ->
       LET r == e.in.r
           w == Obs(s.rs[r], s.reqs[r], e.op, e.in.lvl)
           me == [op |-> e.op, in |-> e.in, obs |-> e.obs]
           same == s.alone \/ (s.exp[r] # <<>> /\ Head(s.exp[r]) = me)
       IN  [ok |-> e.obs = w /\ same,
            st |-> [s EXCEPT !.rs[r] = Do(@, s.reqs[r], e.op, e.in.lvl, e.in.v),
                             !.exp[r] = IF s.alone THEN Append(@, me) ELSE Tail(@)],
            want |-> [obs |-> w, alone |-> IF s.alone \/ s.exp[r] = <<>> THEN me ELSE Head(s.exp[r])]]
=============================================================================
