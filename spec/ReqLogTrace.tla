----------------------------- MODULE ReqLogTrace -----------------------------
EXTENDS ReqLog, TraceLib

GStart(cfg) == [q |-> [i \in 1..Len(cfg.reqs) |-> Q0], o |-> cfg.o, reqs |-> cfg.reqs]
Taken(s, r) == { s.q[i].id : i \in DOMAIN s.q \ {r} }
Ids(s, r, ys) ==   \* all of them are the request's id
  LET y == ys[1] IN (\A i \in 1..Len(ys) : ys[i] = y) /\ IdOk(s.o, s.reqs[r], s.q[r], Taken(s, r), y)
Ok(s, r, q) == [ok |-> TRUE, st |-> [s EXCEPT !.q[r] = q], want |-> 0]
No(s, w) == [ok |-> FALSE, st |-> s, want |-> w]
GStep(s, e) ==
  IF e.op \in {"stuck", "crash"} THEN No(s, "every request ends")
  ELSE IF e.op = "new" THEN [ok |-> e.obs.distinct = e.in.n, st |-> s, want |-> e.in.n]   \* ids made at one instant
  ELSE
  LET r == e.in.r
      q == s.q[r]
      c == s.reqs[r]
      x == e.obs
  IN CASE e.op = "see" -> IF Ids(s, r, <<x.rq, x.lg, x.cx>>) /\ (Own(c) \/ s.o.idf # "" \/ x.dated) THEN Ok(s, r, Named(q, x.rq)) ELSE No(s, q)
       [] e.op = "log" -> Ok(s, r, Log(q, e.in.lvl, e.in.msg))
       [] e.op = "panic" -> Ok(s, r, Panic(s.o, c, q))
       [] e.op = "write" -> Ok(s, r, Write(q, e.in.n))
       [] e.op = "status" -> Ok(s, r, SetStatus(q, e.in.n))
       [] e.op = "rec" -> IF Ids(s, r, <<x.id>>) /\ RecOk(s.o, c, q, x)
                          THEN Ok(s, r, AfterRec(Named(q, x.id), x)) ELSE No(s, q)
       [] e.op = "resp" -> IF /\ Complete(s.o, q)
                              /\ x.escaped = (q.pan /\ s.o.rec = "")
                              /\ x.escaped \/ (Len(x.ids) = 1 /\ Ids(s, r, x.ids) /\ x.status = Final(s.o, q))
                           THEN Ok(s, r, q) ELSE No(s, q)
       [] OTHER -> No(s, "unknown")
=============================================================================
