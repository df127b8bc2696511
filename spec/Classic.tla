------------------------------- MODULE Classic -------------------------------
(***************************************************************************)
(* An application put together by the classic helpers (C33): recovery,     *)
(* the filters of the hooks, the request log, the result writer, then the  *)
(* application's own filters and the action.                               *)
(*   c.mode    "dev" | "test" | "prod"                                     *)
(*   c.glob    the global logger is the application's logger               *)
(*   c.opt     [own |-> FALSE] or options of the request log               *)
(*   c.hook, c.later   handlers;  an action is a handler too:              *)
(*   k   pass mark log with resp status panic late; half (answers, then panics); *)
(*       gap (needs what nothing provides)                                 *)
(*       text pair code none missing                                       *)
(*   n   what tells it apart;  sev, via, two   for log: severity, which    *)
(*       logger, whether the message has a second line                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, StrLib

Tags == <<"EMERGENCY", "ALERT", "CRITCIAL", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG">>
Dev(c) == c.mode = "dev"
Prod(c) == c.mode = "prod"

(* loggers *)
GlobalLog(c) == IF c.glob THEN [id |-> "host", color |-> Dev(c), line |-> TRUE, short |-> Prod(c), flat |-> Prod(c), stack |-> 3]
                ELSE [id |-> "host", color |-> FALSE, line |-> TRUE, short |-> TRUE, flat |-> TRUE, stack |-> 3]
AppLog(c) == IF c.glob THEN GlobalLog(c)
             ELSE [id |-> "", color |-> TRUE, line |-> FALSE, short |-> FALSE, flat |-> TRUE, stack |-> 0]
ReqLog(c) == IF c.opt.own THEN [id |-> "RQ", color |-> c.opt.color, line |-> c.opt.line, short |-> c.opt.short,
                                flat |-> c.opt.flat, stack |-> c.opt.stack]
             ELSE [id |-> "RQ", color |-> Dev(c), line |-> TRUE, short |-> Prod(c), flat |-> Prod(c), stack |-> 3]
OwnLog == [id |-> "own", color |-> FALSE, line |-> TRUE, short |-> TRUE, flat |-> TRUE, stack |-> 0]

(* a record of logger g; long: its text has several lines *)
Rec(g, sev, kind, msg, long, status) ==
  LET hidden == kind \in {"beg", "end"}
      traced == kind = "panic" \/ g.stack >= sev
  IN [lvl |-> Tags[sev], id |-> g.id, color |-> g.color, kind |-> kind, msg |-> msg, status |-> status,
      loc |-> IF ~g.line \/ hidden THEN "none" ELSE IF kind = "panic" THEN "some" ELSE IF g.short THEN "short" ELSE "full",
      traced |-> traced, many |-> (long \/ traced) /\ ~g.flat]

S0 == [recs |-> <<>>, marks |-> <<>>, status |-> 0, body |-> "", pan |-> "", ret |-> [k |-> "none"], logged |-> FALSE, own |-> FALSE]
Put(s, r) == [s EXCEPT !.recs = Append(@, r)]
Mark(s, m) == [s EXCEPT !.marks = Append(@, m)]

Injected(c, s) == IF s.logged THEN ReqLog(c) ELSE AppLog(c)
Via(c, s, via) == CASE via \in {"Logger", "ReqLogger"} -> Injected(c, s)
                    [] via = "ctx" -> IF s.own THEN OwnLog ELSE IF s.logged THEN ReqLog(c) ELSE GlobalLog(c)
Body(n) == "body" \o ToString(n)
Boom(n) == "boom" \o ToString(n)
Logged(c, s, h) == Put(s, Rec(Via(c, s, h.via), h.sev, "msg", "m" \o ToString(h.n), h.two, 0))

Stages(c, a) == <<[k |-> "#recover"]>> \o c.hook \o <<[k |-> "#reqlog"], [k |-> "#out"]>> \o c.later \o <<a>>
Final(s) == IF s.status = 0 THEN 200 ELSE s.status

(* the value an action returned *)
Write(s) == CASE s.ret.k = "text" -> [s EXCEPT !.status = 200, !.body = Body(s.ret.n)]
              [] s.ret.k = "pair" -> [s EXCEPT !.status = 201, !.body = Body(s.ret.n)]
              [] s.ret.k = "code" -> [s EXCEPT !.status = 418]
              [] OTHER -> s

RECURSIVE Exec(_, _, _, _)
Exec(c, g, i, s) ==
  IF i > Len(g) THEN s
  ELSE
  LET h == g[i]
      rest(z) == Exec(c, g, i + 1, z)
  IN CASE h.k = "pass" -> rest(s)
       [] h.k = "log" -> rest(Logged(c, s, h))
       [] h.k = "with" -> rest([s EXCEPT !.own = TRUE])
       [] h.k = "mark" -> LET z == rest(Mark(s, "i" \o ToString(h.n))) IN IF z.pan # "" THEN z ELSE Mark(z, "o" \o ToString(h.n))
       [] h.k = "late" -> LET z == rest(Mark(s, "i" \o ToString(h.n))) IN IF z.pan # "" THEN z ELSE [z EXCEPT !.pan = Boom(h.n)]
       [] h.k = "resp" -> [s EXCEPT !.status = 200, !.body = Body(h.n)]
       [] h.k = "status" -> [s EXCEPT !.status = 403]
       [] h.k = "panic" -> [s EXCEPT !.pan = Boom(h.n)]
       [] h.k = "gap" -> [s EXCEPT !.pan = "gap"]
       [] h.k = "half" -> [s EXCEPT !.status = 200, !.body = Body(h.n), !.pan = Boom(h.n)]
       [] h.k = "missing" -> [s EXCEPT !.status = 404, !.body = "404 Not Found"]
       [] h.k \in {"text", "pair", "code"} -> [s EXCEPT !.ret = h]
       [] h.k = "none" -> s
       [] h.k = "#out" -> LET z == rest(s) IN IF z.pan # "" \/ z.status # 0 THEN z ELSE Write(z)
       [] h.k = "#reqlog" -> LET z == rest(Put([s EXCEPT !.logged = TRUE, !.own = FALSE], Rec(ReqLog(c), 7, "beg", "", FALSE, 0)))
                             IN  IF z.pan # "" THEN z ELSE Put(z, Rec(ReqLog(c), 7, "end", "", FALSE, Final(z)))
       [] h.k = "#recover" -> LET z == rest(s)
                              IN  IF z.pan = "" THEN z
                                  ELSE LET y == Put(z, Rec(Injected(c, z), 4, "panic", z.pan, TRUE, 0))
                                       IN  IF y.status # 0 THEN y
                                           ELSE [y EXCEPT !.status = 500, !.body = IF Dev(c) THEN "PANIC " \o y.pan ELSE ""]
Outcome(c, a) == Exec(c, Stages(c, a), 1, S0)
=============================================================================
