---------------------------- MODULE CollectTrace ----------------------------
EXTENDS Collect, TraceLib
GStart(cfg) == [now |-> 0, loops |-> <<>>]
GStep(s, e) ==
  LET s2 == IF e.op = "gc" THEN Begin(s, e.in.every) ELSE IF e.op = "adv" THEN Pass(s, e.in.s) ELSE s
  IN  [ok |-> e.op \in {"gc", "adv"} /\ e.obs.n = Count(s2), st |-> s2, want |-> Count(s2)]
=============================================================================
