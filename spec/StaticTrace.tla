---------------------------- MODULE StaticTrace ----------------------------
EXTENDS Static, TraceLib
ToSet(q) == { q[i] : i \in DOMAIN q }
GStart(cfg) == [tree |-> [files |-> cfg.files, dirs |-> ToSet(cfg.dirs)], f |-> cfg.filters]
GStep(s, e) ==
  LET w == Answer(s.tree, s.f[e.in.c], e.in.method, e.in.path)
      x == e.obs
      ok == /\ e.op = "serve"
            /\ x.r = w.r
            /\ x.open = 0
            /\ x.next = (IF w.r = "pass" THEN 1 ELSE 0)
            /\ w.r = "content" => x.c = w.c /\ x.part = e.in.part
            /\ w.r = "redirect" => x.host /\ x.query = e.in.query /\ Slashed(e.in.path, x.to)
  IN  [ok |-> ok, st |-> s, want |-> w]
=============================================================================
