------------------------------- MODULE ReqLog -------------------------------
(***************************************************************************)
(* Request ids and request records (C26).  o: options of the filter,       *)
(*   idf   id filter: "" | "sfx" (appends "-z") | "fix" ("fixed-id")       *)
(*   pre   prefix filter installed;  begf, endf: "" | "tag" | "drop"       *)
(*   rec   recovery: "out" | "in" | "" relative to the request-log filter  *)
(* c: a request, with the id the client sent (cid, cidn its length in      *)
(* bytes).  q: its state                                                   *)
(*   id      its request id, "" until the first observation fixes it       *)
(*   beg, end   records seen;  pend: messages logged, not yet printed      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, StrLib

Q0 == [id |-> "", beg |-> FALSE, end |-> FALSE, pend |-> <<>>, status |-> 0, size |-> 0, com |-> FALSE, pan |-> FALSE]

Own(c) == c.cidn >= 10 /\ c.cidn <= 32
Filtered(o, x) == CASE o.idf = "sfx" -> x \o "-z" [] o.idf = "fix" -> "fixed-id" [] OTHER -> x
(* y can be the id of a request with a new id *)
NewOk(o, c, y) ==
  CASE o.idf = "fix" -> y = "fixed-id"
    [] o.idf = "sfx" -> HasSuffix(y, "-z") /\ Len(y) >= 12 /\ Len(y) <= 34
    [] OTHER -> Len(y) >= 10 /\ Len(y) <= 32
(* y as the id of request c in state q; taken: ids of the other requests *)
IdOk(o, c, q, taken, y) ==
  IF q.id # "" THEN y = q.id
  ELSE IF Own(c) THEN y = Filtered(o, c.cid)
  ELSE NewOk(o, c, y) /\ (o.idf = "fix" \/ y \notin taken)
Named(q, y) == [q EXCEPT !.id = y]

(* who asks: the address a proxy names, else the first it came by, else the peer *)
Client(c) == IF c.real # "" THEN c.real ELSE IF c.fwd # <<>> /\ c.fwd[1] # "" THEN c.fwd[1] ELSE c.peer
Prefix(o, c) == IF o.pre THEN "[P-" \o c.tok \o "]" ELSE ""
Status(q) == IF q.status = 0 THEN 200 ELSE q.status
(* milli-kilobytes, rounded *)
KbOk(size, m) == LET d == m * 1024 - size * 1000 IN d <= 512 /\ d >= -512

RecOk(o, c, q, x) ==
  /\ x.prefix = Prefix(o, c)
  /\ CASE x.kind = "beg" -> /\ ~q.beg /\ ~q.end /\ q.pend = <<>> /\ o.begf # "drop"
                            /\ x.lvl = "INFO" /\ x.what = c.what /\ x.addr = Client(c) /\ x.tag = (o.begf = "tag")
       [] x.kind = "end" -> /\ (q.beg \/ o.begf = "drop") /\ ~q.end /\ q.pend = <<>> /\ o.endf # "drop"
                            /\ x.lvl = "INFO" /\ x.status = Status(q) /\ KbOk(q.size, x.mkb) /\ x.tag = (o.endf = "tag")
       [] OTHER -> /\ (q.beg \/ o.begf = "drop") /\ ~q.end /\ q.pend # <<>>
                   /\ x.lvl = Head(q.pend).lvl /\ x.msg = Head(q.pend).msg
AfterRec(q, x) == CASE x.kind = "beg" -> [q EXCEPT !.beg = TRUE]
                    [] x.kind = "end" -> [q EXCEPT !.end = TRUE]
                    [] OTHER -> [q EXCEPT !.pend = Tail(@)]
Log(q, lvl, msg) == [q EXCEPT !.pend = Append(@, [lvl |-> lvl, msg |-> msg])]
Panic(o, c, q) == LET p == [q EXCEPT !.pan = TRUE]
                      r == IF o.rec = "" THEN p ELSE Log(p, "ERROR", "PANIC")
                  IN  IF o.rec = "in" /\ q.status = 0 THEN [r EXCEPT !.status = 500] ELSE r
Write(q, n) == [q EXCEPT !.status = Status(q), !.com = TRUE, !.size = @ + n]
SetStatus(q, n) == IF q.com THEN q ELSE [q EXCEPT !.status = n]

(* the request is over *)
Complete(o, q) == /\ q.pend = <<>>
                  /\ q.beg = (o.begf # "drop")
                  /\ q.end = (o.endf # "drop" /\ ~(q.pan /\ o.rec # "in"))
Final(o, q) == IF q.pan /\ o.rec = "out" /\ q.status = 0 THEN 500 ELSE Status(q)
=============================================================================
