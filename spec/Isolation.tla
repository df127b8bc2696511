------------------------------ MODULE Isolation ------------------------------
(***************************************************************************)
(* Concurrent requests to one application (C13).  The application holds    *)
(* registrations which serving never changes; everything else belongs to   *)
(* one request:                                                            *)
(*   ctxo, ctxi   context value, outer and route level ("" = not set)      *)
(*   val          its request-scope registration ("app" = application's)   *)
(*   fn           result of the application's provider function, which     *)
(*                reads the request and val, once computed                 *)
(*   hdr, hc      response header, and as it was when sent                 *)
(*   status, com  status (0 = none), head sent                             *)
(*   body, code, ret, pan   body sent, results of the action, panicked     *)
(* c is the request: token, parameters, id.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

App == [val |-> "app", count |-> 7, mode |-> "prod"]

Req0 == [ctxo |-> "", ctxi |-> "", val |-> App.val, fn |-> "", hdr |-> "", hc |-> "", status |-> 0, com |-> FALSE,
         body |-> <<>>, code |-> 0, ret |-> "", pan |-> FALSE]

FnOf(q, c) == IF q.fn # "" THEN q.fn ELSE c.tok \o ":" \o q.val
Sees(q, c, lvl) ==
  [tok |-> c.tok, gtok |-> c.tok, q |-> c.q, id |-> c.rid,
   ctx |-> IF lvl = "i" /\ q.ctxi # "" THEN q.ctxi ELSE q.ctxo,
   val |-> q.val, app |-> App.val, st |-> q.status, hdr |-> q.hdr,
   info |-> IF lvl = "i" THEN c.info ELSE ""]
Ctl(q, c) == [count |-> App.count, val |-> q.val, fn |-> FnOf(q, c), tok |-> c.tok, p |-> c.p, num |-> c.num]
Resp(q, c) ==
  LET gen == q.status = 0 /\ ~q.pan
      st == IF q.status # 0 THEN q.status ELSE IF q.pan THEN 500 ELSE IF q.code # 0 THEN q.code ELSE 200
  IN  [status |-> st, hs |-> IF q.com THEN q.hc ELSE q.hdr, by |-> "Teapot", id |-> c.rid,
       body |-> IF gen /\ q.ret # "" THEN <<q.ret>> ELSE q.body]
AppSees == [count |-> App.count, val |-> App.val, mode |-> App.mode]

(* what an operation does to the request it belongs to *)
Do(q, c, op, lvl, v) ==
  CASE op = "ctx"    -> IF lvl = "i" THEN [q EXCEPT !.ctxi = v] ELSE [q EXCEPT !.ctxo = v]
    [] op = "val"    -> [q EXCEPT !.val = v]
    [] op = "hdr"    -> [q EXCEPT !.hdr = v]
    [] op = "fn"     -> [q EXCEPT !.fn = FnOf(q, c)]
    [] op = "ctl"    -> [q EXCEPT !.fn = FnOf(q, c)]
    [] op = "status" -> IF q.com THEN q ELSE [q EXCEPT !.status = v]
    [] op = "write"  -> [q EXCEPT !.hc = IF q.com THEN @ ELSE q.hdr, !.status = IF @ = 0 THEN 200 ELSE @,
                                  !.com = TRUE, !.body = Append(@, v)]
    [] op = "ret"    -> [q EXCEPT !.ret = v]
    [] op = "code"   -> [q EXCEPT !.code = v]
    [] op = "panic"  -> [q EXCEPT !.pan = TRUE]
    [] OTHER         -> q
Obs(q, c, op, lvl) ==
  CASE op = "see"  -> Sees(q, c, lvl)
    [] op = "fn"   -> [fn |-> FnOf(q, c)]
    [] op = "ctl"  -> Ctl(q, c)
    [] op = "resp" -> Resp(q, c)
    [] OTHER       -> [_ |-> 0]
=============================================================================
