------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* One request going through the application chain and the route chain,    *)
(* with the response writer, the before-write hooks, the recovery filter,  *)
(* the output filter and the compression filter                            *)
(* (properties C05, C07, C08, C09, C25).                                   *)
(*                                                                         *)
(* chain[1] is the application chain, its last element is the router;      *)
(* chain[2] is the route's chain, ending in the action, or the not-found   *)
(* chain.  Elements are [k, id, prov]:                                     *)
(*   h      a handler (filter or action) supplied by the application       *)
(*   rec    recovery filter      out   output filter                       *)
(*   gz     compression filter   nf    the default not-found handler       *)
(*   route  the router                                                     *)
(* Observable events are handlers being entered, yielding, being resumed,  *)
(* returning or panicking, their operations on the response, and hooks.    *)
(* Everything between two observable events is done by Settle.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Elem(k, id) == [k |-> k, id |-> id, prov |-> FALSE]

----------------------------------------------------------------------------
(* The response writer *)

RW0 == [st |-> 0, com |-> FALSE, hdr |-> [a |-> "", b |-> "", ct |-> ""], hooks |-> <<>>, ran |-> <<>>,
        body |-> <<>>, size |-> 0, room |-> 1073741824, typed |-> FALSE, sst |-> 0, shdr |-> [a |-> "", b |-> "", ct |-> ""], heads |-> 0,
        wired |-> FALSE, taken |-> FALSE]

SetHdr(w, k, v) == IF k = "" THEN w ELSE [w EXCEPT !.hdr[k] = v]
SetStatus(w, s) == IF w.com \/ s = 0 THEN w ELSE [w EXCEPT !.st = s]
AddHook(w, hk)  == [w EXCEPT !.hooks = Append(@, hk)]

RECURSIVE RunHooks(_)
RunHooks(w) ==                                     \* last registered first
  IF w.hooks = <<>> THEN w
  ELSE LET hk == w.hooks[Len(w.hooks)]
           w1 == [w EXCEPT !.hooks = SubSeq(@, 1, Len(@) - 1), !.ran = Append(@, hk.id)]
       IN  RunHooks(SetStatus(SetHdr(w1, hk.k, hk.v), hk.s))

Commit(w) ==
  IF w.com THEN w
  ELSE LET w1 == RunHooks(w)
           s  == IF w1.st = 0 THEN 200 ELSE w1.st
       IN  IF w1.taken THEN [w1 EXCEPT !.st = s, !.com = TRUE]
           ELSE [w1 EXCEPT !.st = s, !.com = TRUE, !.sst = s, !.shdr = w1.hdr, !.heads = @ + 1]

(* a handler takes the connection over, nothing more is sent on it *)
Hijack(w) == IF w.wired THEN [w EXCEPT !.taken = TRUE] ELSE w

WriteBody(w, tok, n) ==
  LET c == [Commit(w) EXCEPT !.typed = @ \/ (~w.com /\ tok # "")]    \* the first bytes tell the type
  IN  IF tok = "" \/ c.taken THEN c
      ELSE IF n <= c.room THEN [c EXCEPT !.body = Append(@, tok), !.size = @ + n, !.room = @ - n]
      ELSE IF c.room = 0 THEN c                    \* the connection takes no more
      ELSE [c EXCEPT !.body = Append(@, "~" \o ToString(c.room)), !.size = @ + c.room, !.room = 0]

----------------------------------------------------------------------------
(* Values returned by an action: [k, s, toks, id, pan] where k is one of    *)
(* int text bytes reader closer handler result nil other; pan: producing    *)
(* the body panics when all of toks has been written                        *)

NoOut == [set |-> FALSE, vals |-> <<>>]

RECURSIVE WriteAll(_, _)
WriteAll(w, toks) == IF toks = <<>> THEN w
                     ELSE WriteAll(WriteBody(w, Head(toks).t, Head(toks).n), Tail(toks))

RenderBody(w, v) ==
  CASE v.k \in {"text", "bytes"} -> IF v.toks = <<>> THEN Commit(w) ELSE WriteAll(w, v.toks)
    [] v.k \in {"reader", "closer"} -> WriteAll(w, v.toks)
    [] v.k \in {"handler", "result"} -> WriteAll(SetStatus(w, v.s), v.toks)
    [] OTHER -> w                                  \* nil and anything else: no body

Render(w, vals) ==
  IF vals = <<>> THEN w
  ELSE LET n    == Len(vals)
           last == vals[n]
       IN  IF last.k = "int"
             THEN LET w1 == SetStatus(w, last.s)
                  IN  IF n = 1 THEN w1 ELSE RenderBody(w1, vals[n - 1])
             ELSE RenderBody(w, last)

(* the value that becomes the body *)
BodyOf(vals) == LET n == Len(vals)
                IN  IF n = 0 THEN <<>>
                    ELSE IF vals[n].k # "int" THEN <<vals[n]>>
                    ELSE IF n = 1 THEN <<>> ELSE <<vals[n - 1]>>
(* readers the rendering consumes *)
Consumed(vals) == LET b == BodyOf(vals) IN IF b # <<>> /\ b[1].k = "closer" THEN {b[1].id} ELSE {}
Fails(vals)    == LET b == BodyOf(vals) IN b # <<>> /\ b[1].pan

----------------------------------------------------------------------------
(* Control *)

Begin(app, rt, acc, dev, room) ==
  [chain |-> <<app, rt>>, ix |-> <<1, 1>>, stack |-> <<>>, mode |-> "loop", at |-> 1, w |-> [RW0 EXCEPT !.room = room],
   acc |-> acc, dev |-> dev, errs |-> 0, outs |-> NoOut, closed |-> {}, html |-> FALSE, gzused |-> FALSE]

Top(s)  == s.stack[Len(s.stack)]
Push(s, f) == [s EXCEPT !.stack = Append(@, f)]
Pop(s)  == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Frame(k, c, id) == [k |-> k, c |-> c, id |-> id]

UnderGz(s) == \E i \in 1..Len(s.stack) : s.stack[i].k = "gz"

Loop(s, c)  == [s EXCEPT !.mode = "loop", !.at = c]
Yielded(s, c) == Loop([s EXCEPT !.ix[c] = @ + 1], c)          \* run the rest of the chain
Back(s, c)  == [s EXCEPT !.mode = "back", !.at = c]           \* the rest of the chain has run
(* a handler of chain c returned *)
After(s, c) ==
  LET s1 == [s EXCEPT !.ix[c] = @ + 1]
  IN  IF s.w.st # 0 THEN Back(s1, c) ELSE Loop(s1, c)

RECURSIVE Settle(_), Unwind(_)
Settle(s) ==
  CASE s.mode = "loop" ->
         LET c == s.at
         IN  IF s.ix[c] > Len(s.chain[c]) THEN Settle(Back(s, c))
             ELSE LET e == s.chain[c][s.ix[c]]
                  IN  CASE e.k = "h"     -> [s EXCEPT !.mode = "enter"]
                        [] e.k = "route" -> Settle(Loop([Push(s, Frame("route", c, "")) EXCEPT !.ix[2] = 1], 2))
                        [] e.k = "nf"    -> Settle(After([s EXCEPT !.w = WriteBody(SetStatus(@, 404), "404", 13)], c))
                        [] e.k = "gz" /\ ~s.acc -> Settle(After(s, c))
                        [] OTHER         -> Settle(Yielded(Push(s, Frame(e.k, c, e.id)), c))
    [] s.mode = "back" ->
         IF s.stack = <<>> THEN [s EXCEPT !.mode = "end", !.w = Commit(@)]
         ELSE LET f == Top(s)
              IN  CASE f.k = "h"   -> [s EXCEPT !.mode = "resume"]
                    [] f.k = "out" -> IF s.w.st # 0 \/ ~s.outs.set THEN Settle(After(Pop(s), f.c))
                                      ELSE LET r == [Pop(s) EXCEPT !.w = Render(@, s.outs.vals), !.closed = Consumed(s.outs.vals)]
                                           IN  IF Fails(s.outs.vals) THEN Unwind(r) ELSE Settle(After(r, f.c))
                    [] OTHER       -> Settle(After(Pop(s), f.c))
    [] OTHER -> s

(* a panic unwinds to the recovery filter *)
Unwind(s) ==
  IF s.stack = <<>> THEN [s EXCEPT !.mode = "escaped"]
  ELSE LET f == Top(s)
       IN  IF f.k # "rec" THEN Unwind(Pop(s))
           ELSE LET s1 == [Pop(s) EXCEPT !.errs = @ + 1]
                    s2 == IF s1.w.st # 0 THEN s1
                          ELSE [s1 EXCEPT !.html = s1.dev,
                                          !.w = IF s1.dev THEN WriteBody(SetStatus(@, 500), "HTML", 0)
                                                ELSE SetStatus(@, 500)]
                IN  Settle(After(s2, f.c))

(* the element about to be entered *)
Due(s) == s.chain[s.at][s.ix[s.at]]

Entering(s, id) == s.mode = "enter" /\ Due(s).id = id
Enter(s)  == [Push(s, Frame("h", s.at, Due(s).id)) EXCEPT !.mode = "user"]
Running(s, id) == s.mode = "user" /\ Top(s).id = id
Yield(s)  == Settle(Yielded(s, Top(s).c))
Resuming(s, id) == s.mode = "resume" /\ Top(s).id = id
Resume(s) == [s EXCEPT !.mode = "user"]
Exit(s)   == Settle(After(Pop(s), Top(s).c))
Returns(s, vals) == Exit([s EXCEPT !.outs = [set |-> TRUE, vals |-> vals]])

Panic(s) == Unwind(s)
(* a provider of the next handler's argument panics *)
Providing(s, id) == s.mode = "enter" /\ Due(s).id = id /\ Due(s).prov

Do(s, f(_)) == [s EXCEPT !.w = f(@)]
=============================================================================
