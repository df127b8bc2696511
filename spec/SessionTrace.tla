---------------------------- MODULE SessionTrace ----------------------------
EXTENDS Session, TraceLib

GStart(cfg) == [now |-> 0, exp |-> cfg.exp, store |-> [x \in {} |-> 0], issued |-> [x \in {} |-> 0], req |-> [x \in {} |-> 0],
                h |-> [x \in {} |-> 0], ck |-> cfg.ck, dummy |-> {}]
Ok(s) == [ok |-> TRUE, st |-> s, want |-> 0]
No(s, w) == [ok |-> FALSE, st |-> s, want |-> w]
(* exactly one new cookie *)
OneCookie(s, set) == /\ Len(set) = 1
                     /\ set[1].at = s.ck.new
                     /\ ~In(s.issued, set[1].t)
NewId(s, sid) == sid # "" /\ sid \notin Known(s)
(* outcomes set: pick those agreeing with the observed error *)
Choose1(rs, s, err) == LET g == { x \in rs : x.err = err } IN IF g = {} THEN No(s, { x.err : x \in rs }) ELSE Ok((CHOOSE x \in g : TRUE).s)

Failed(s, x) == x.err /\ x.set = <<>> /\ x.sid = ""
Began(s, x, sid, vals) == ~x.err /\ x.sid = sid /\ x.vals = vals

(* a session that could not be found by cookie *)
Create(s, r, i, x, vals, changed, fault) ==
  IF fault # "" /\ Failed(s, x) THEN Ok(s)
  ELSE IF Began(s, x, x.sid, vals) /\ NewId(s, x.sid) /\ OneCookie(s, x.set) /\ x.at = s.now
       THEN Ok(Fresh(s, r, x.sid, x.set[1].t, vals, changed, i))
       ELSE No(s, [err |-> FALSE, vals |-> vals, sid |-> "new", cookies |-> "new", at |-> s.now])

StartStep(s, e) ==
  LET r == e.in.r
      x == e.obs
      i == e.in.h
  IN  IF ~Valid(s, r) THEN Create(s, r, i, x, NoVals, FALSE, e.in.fault)
      ELSE LET sid == SidOf(s, r)
               ls == { q \in Look(s, sid) : q.vals = x.vals }
           IN  IF e.in.fault # "" THEN IF Failed(s, x) THEN Ok(s) ELSE No(s, "an error")
               ELSE IF ls # {} /\ ~x.err /\ x.sid = sid /\ x.set = <<>> /\ x.at = s.issued[s.req[r]].at
                    THEN Ok([s EXCEPT !.h = Put(@, i, Handle(sid, x.vals, FALSE)), !.store = Put(@, sid, { q.e : q \in ls })])
                    ELSE No(s, [sid |-> sid, data |-> Look(s, sid)])

RegenStep(s, e) ==
  LET r == e.in.r
      x == e.obs
      i == e.in.h
  IN  IF ~Valid(s, r) THEN Create(s, r, i, x, e.in.vals, e.in.given, e.in.fault)
      ELSE LET old == SidOf(s, r)
               live == { q \in Look(s, old) : q.live /\ q.vals = x.vals }
               dead == { q \in Look(s, old) : ~q.live }
           IN  IF e.in.fault # ""
               THEN IF Failed(s, x) THEN Ok(IF e.in.fault = "late" THEN Gone(s, old, "late") ELSE s) ELSE No(s, "an error")
               ELSE IF live # {} /\ Began(s, x, x.sid, x.vals) /\ NewId(s, x.sid) /\ OneCookie(s, x.set) /\ x.at = s.now
                    THEN Ok(Move(s, r, old, x.sid, x.set[1].t, x.vals, i))
               ELSE IF dead # {} THEN Create(s, r, i, x, e.in.vals, e.in.given, "")
               ELSE No(s, [data |-> Look(s, old)])

DestroyStep(s, e) ==
  LET r == e.in.r
      x == e.obs
  IN  IF ~Valid(s, r) THEN IF ~x.err /\ x.set = <<>> THEN Ok(s) ELSE No(s, "nothing happens")
      ELSE IF e.in.fault # "" THEN Ok(Gone(s, SidOf(s, r), e.in.fault))
      ELSE IF ~x.err /\ Len(x.set) = 1 /\ x.set[1].at = s.ck.del THEN Ok(Gone(s, SidOf(s, r), ""))
      ELSE No(s, "the cookie is removed")

GStep(s, e) ==
  LET i == e.in.h
      x == e.obs
      f == e.in.fault
  IN CASE e.op = "crash" -> No(s, "the call returns")
       [] e.op = "panic" -> No(s, "no panic")
       [] e.op = "rest" -> IF x.held = 0 THEN Ok(s) ELSE No(s, [held |-> 0])   \* connections are given back
       [] e.op = "adv" -> Ok([s EXCEPT !.now = @ + e.in.s])
       [] e.op = "req" -> Ok([s EXCEPT !.req = Put(@, e.in.r, IF e.in.ck = <<>> THEN "" ELSE e.in.ck[Len(e.in.ck)])])
       [] e.op = "start" -> StartStep(s, e)
       [] e.op = "regen" -> RegenStep(s, e)
       [] e.op = "mdestroy" -> DestroyStep(s, e)
       [] e.op = "set" -> Ok(SetVal(s, i, e.in.k, e.in.v))
       [] e.op = "del" -> Ok(DelVal(s, i, e.in.k))
       [] e.op = "clean" -> Ok(CleanVals(s, i))
       [] e.op = "get" -> LET w == [has |-> In(s.h[i].vals, e.in.k), v |-> IF In(s.h[i].vals, e.in.k) THEN s.h[i].vals[e.in.k] ELSE "nil",
                                    sid |-> s.h[i].sid]
                          IN  IF x = w THEN Ok(s) ELSE No(s, w)
       [] e.op = "vals" -> IF x.vals = s.h[i].vals THEN Ok(s) ELSE No(s, s.h[i].vals)
       \* what a back end does not drop by itself is gone, and nothing else
       [] e.op = "gc" -> IF (x.err /\ f # "") \/ (~x.err /\ (f = "" => x.stale = 0)) THEN Ok(s) ELSE No(s, [err |-> FALSE, stale |-> 0])
       [] e.op = "dummy" -> Ok([s EXCEPT !.h = Put(@, i, Handle(e.in.k, e.in.vals, FALSE)), !.dummy = @ \cup {i}])
       [] i \in s.dummy -> \* saved nowhere
            IF x.err THEN No(s, [err |-> FALSE])
            ELSE Ok(IF e.op = "destroy" THEN [s EXCEPT !.h[i].vals = NoVals] ELSE s)
       [] e.op = "flush" -> Choose1(Flush(s, i, f), s, x.err)
       [] e.op = "touch" -> Choose1(Touch(s, i, f), s, x.err)
       [] e.op = "destroy" -> Choose1(DestroyHandle(s, i, f), s, x.err)
       [] OTHER -> No(s, "unknown")
=============================================================================
