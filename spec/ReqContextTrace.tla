-------------------------- MODULE ReqContextTrace --------------------------
EXTENDS ReqContext, TraceLib
GStart(cfg) == New
GStep(s, e) ==
  LET in == e.in
      Ok(t) == [ok |-> TRUE, st |-> t, want |-> ""]
  IN
  CASE e.op = "request" -> Ok(New)
    [] e.op = "enter"   -> Ok(Enter(s, in.h))
    [] e.op = "set"     -> Ok(Set(s, in.c, in.k, in.v))
    [] e.op = "reset"   -> Ok(Reset(s, in.c, in.h))
    [] e.op = "empty"   -> Ok(Empty(s, in.c))
    [] e.op = "bound"   -> Ok(Bound(s, in.c, in.v))
    [] e.op = "cancel"  -> Ok(Cancel(s, in.v))
    [] e.op = "other"   -> Ok(Other(s, in.h, in.k, in.v))
    [] e.op = "provide" -> Ok([s EXCEPT !.inj = in.v])
    [] e.op = "look"    -> LET w == [ctx |-> View(s, s.cur[in.c]), req |-> View(s, s.hs[in.h])]
                           IN  [ok |-> e.obs.ctx = w.ctx /\ e.obs.req = w.req, st |-> s, want |-> w]
    [] e.op = "end"     -> [ok |-> e.obs.ran = in.ids, st |-> s, want |-> in.ids]
=============================================================================
