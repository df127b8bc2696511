---------------------------- MODULE CtxValTrace ----------------------------
EXTENDS CtxVal, TraceLib
GStart(cfg) == Root
Found(cs, f) == LET v == Lookup(cs, f.c, f.t, f.n) IN [found |-> v # 0, v |-> IF v = 0 THEN -1 ELSE v, same |-> TRUE]
GStep(cs, e) ==
  LET in == e.in IN
  CASE e.op = "with"   -> [ok |-> TRUE, st |-> With(cs, in.c, in.t, in.n, in.v), want |-> ""]
    [] e.op = "derive" -> [ok |-> TRUE, st |-> Derive(cs, in.c), want |-> ""]
    [] e.op = "find"   -> LET w == [i \in DOMAIN in.fs |-> Found(cs, in.fs[i])]
                          IN  [ok |-> e.obs.got = w, st |-> cs, want |-> w]
=============================================================================
