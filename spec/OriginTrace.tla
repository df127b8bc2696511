---------------------------- MODULE OriginTrace ----------------------------
EXTENDS Origin, TraceLib
GStart(cfg) == 0
GStep(s, e) == [ok |-> e.obs = All(e.in), st |-> s, want |-> All(e.in)]
=============================================================================
