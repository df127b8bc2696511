----------------------------- MODULE ReqContext -----------------------------
(* The context of a request (C35).  Nodes are Go contexts: "in" is the       *)
(* incoming request's, which its client may cancel; "app" holds the strip    *)
(* context; "dyn" stands for the context of the application's chain, as      *)
(* the chain of the route sees it; "bare" is empty; "val" holds a value;     *)
(* "stop" can be cancelled and may have a deadline.  Each chain has its      *)
(* current context, which its handlers may replace; the request has one of   *)
(* its own, and may be replaced by another request.                          *)
EXTENDS Integers, Sequences
Node(k, up) == [k |-> k, up |-> up, key |-> "", val |-> 0, flag |-> FALSE, tie |-> 0, dl |-> 0]
New == [ns |-> <<Node("in", 0), Node("app", 1), Node("dyn", 0), Node("bare", 0)>>,
        cur |-> <<2, 3>>, req |-> 2, hs |-> [x \in {} |-> 0], inj |-> 0]

RECURSIVE Value(_, _, _)
Value(s, n, k) ==
  IF n = 0 THEN 0
  ELSE LET x == s.ns[n] IN
       IF x.k = "val" /\ x.key = k THEN x.val
       ELSE Value(s, IF x.k = "dyn" THEN s.cur[1] ELSE x.up, k)
RECURSIVE HasApp(_, _)
HasApp(s, n) == n # 0 /\ LET x == s.ns[n] IN x.k = "app" \/ HasApp(s, IF x.k = "dyn" THEN s.cur[1] ELSE x.up)
(* the nearest context that can be cancelled *)
RECURSIVE Stop(_, _)
Stop(s, n) == IF n = 0 \/ s.ns[n].k \in {"in", "stop"} THEN n
              ELSE Stop(s, IF s.ns[n].k = "dyn" THEN s.cur[1] ELSE s.ns[n].up)
(* who is cancelled cancels what was derived from it *)
RECURSIVE Over(_, _)
Over(s, n) == n # 0 /\ (s.ns[n].flag \/ Over(s, s.ns[n].tie))
RECURSIVE Deadline(_, _)
Deadline(s, n) ==
  IF n = 0 THEN 0
  ELSE LET x == s.ns[n] IN
       IF x.dl # 0 THEN x.dl ELSE Deadline(s, IF x.k = "dyn" THEN s.cur[1] ELSE x.up)
(* all that can be seen of a context *)
Keys == <<"a", "b">>
View(s, n) == [vals |-> [i \in DOMAIN Keys |-> Value(s, n, Keys[i])], over |-> Over(s, Stop(s, n)),
               dl |-> Deadline(s, n), app |-> HasApp(s, n), inj |-> IF HasApp(s, n) THEN s.inj ELSE 0]

Add(s, x) == [s EXCEPT !.ns = Append(s.ns, x)]
Top(s) == Len(s.ns) + 1
(* chain c (1 the application's, 2 the route's) replaces its context *)
To(s, c, n) == [s EXCEPT !.cur[c] = n]
Set(s, c, k, v) == To(Add(s, [Node("val", s.cur[c]) EXCEPT !.key = k, !.val = v]), c, Top(s))
Reset(s, c, h) == To(s, c, s.hs[h])
Empty(s, c) == To(s, c, 4)
Bound(s, c, d) ==
  LET up == s.cur[c]
      dl == Deadline(s, up)
  IN  To(Add(s, [Node("stop", up) EXCEPT !.tie = Stop(s, up), !.dl = IF d # 0 /\ (dl = 0 \/ d < dl) THEN d ELSE 0]), c, Top(s))
Cancel(s, n) == [s EXCEPT !.ns[n].flag = TRUE]
(* another request, with a context derived from the handler's one *)
Other(s, h, k, v) == [Add(s, [Node("val", s.hs[h]) EXCEPT !.key = k, !.val = v]) EXCEPT !.req = Top(s)]
Enter(s, h) == [s EXCEPT !.hs = [x \in DOMAIN s.hs \cup {h} |-> IF x = h THEN s.req ELSE s.hs[x]]]
=============================================================================
