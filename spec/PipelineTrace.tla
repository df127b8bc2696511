--------------------------- MODULE PipelineTrace ---------------------------
(* Recorded requests against Pipeline.  A trace is a sequence of requests   *)
(* to one application; `ran` collects the hooks observed so far.            *)
EXTENDS Pipeline, TraceLib

Idle == [on |-> FALSE, ran |-> <<>>, p |-> Begin(<<>>, <<>>, FALSE, FALSE, 0), gz |-> FALSE]
PStart(cfg) == Idle

(* what the handler sees of the response after an operation *)
View(s, e, p) ==
  [st |-> p.w.st, wr |-> p.w.st # 0, sz |-> IF s.gz THEN e.obs.sz ELSE p.w.size]

Ok(b, s, p, want) == [ok |-> b, st |-> [s EXCEPT !.p = p], want |-> want]
Want(p) == [expected |-> p.mode, handler |-> IF p.mode = "enter" THEN Due(p).id ELSE IF p.stack = <<>> THEN "" ELSE Top(p).id,
            hooks |-> p.w.ran]

(* C05 is about who runs when; what is sent is compared for the others *)
CtlOnly == IOEnv.PROP = "C05"
Same(s, p) == CtlOnly \/ s.ran = p.w.ran
Seen(obs, v) == IF CtlOnly THEN obs.wr = v.wr ELSE obs = v

Control(s, e, able, next) ==
  Ok(able /\ Same(s, s.p), s, IF able THEN next ELSE s.p, Want(s.p))

Op(s, e, p) ==
  LET v == View(s, e, p)
  IN  Ok(Running(s.p, e.in.id) /\ Same(s, p) /\ Seen(e.obs, v), s, p, [view |-> v, control |-> Want(p)])

PStep(s, e) ==
  CASE e.op = "req"    -> LET p == Settle([Begin(e.in.app, e.in.rt, e.in.acc, e.in.dev, e.in.room) EXCEPT !.w.wired = e.in.wired])
                          IN  [ok |-> ~s.on, want |-> "previous request ended",
                               st |-> [on |-> TRUE, ran |-> <<>>, p |-> p,
                                       gz |-> e.in.acc /\ \E c \in 1..2 : \E i \in 1..Len(p.chain[c]) : p.chain[c][i].k = "gz"]]
    [] e.op = "hook"   -> [ok |-> TRUE, st |-> [s EXCEPT !.ran = Append(@, e.in.hook)], want |-> <<>>]
    [] e.op = "enter"  -> LET able == Entering(s.p, e.in.id) /\ ~Due(s.p).prov
                          IN  Control(s, e, able, IF able THEN Enter(s.p) ELSE s.p)
    [] e.op = "prov"   -> LET able == Providing(s.p, e.in.id)
                          IN  Control(s, e, able, IF able THEN Panic(s.p) ELSE s.p)
    [] e.op = "yield"  -> LET able == Running(s.p, e.in.id)
                          IN  Control(s, e, able, IF able THEN Yield(s.p) ELSE s.p)
    [] e.op = "resume" -> LET able == Resuming(s.p, e.in.id)
                          IN  Control(s, e, able /\ Seen(e.obs, View(s, e, s.p)), IF able THEN Resume(s.p) ELSE s.p)
    [] e.op = "exit"   -> LET able == Running(s.p, e.in.id)
                          IN  Control(s, e, able, IF ~able THEN s.p ELSE IF e.in.act THEN Returns(s.p, e.in.vals) ELSE Exit(s.p))
    [] e.op = "panic"  -> LET able == Running(s.p, e.in.id)
                          IN  Control(s, e, able, IF able THEN Panic(s.p) ELSE s.p)
    [] e.op = "status" -> Op(s, e, Do(s.p, LAMBDA w : SetStatus(w, e.in.s)))
    [] e.op = "write"  -> Op(s, e, Do(s.p, LAMBDA w : WriteBody(w, e.in.tok, e.in.n)))
    [] e.op = "flush"  -> LET p == Do(s.p, LAMBDA w : Commit(w))      \* all written so far can be read
                              r == Op(s, [e EXCEPT !.obs = [st |-> @.st, wr |-> @.wr, sz |-> @.sz]], p)
                          IN  [r EXCEPT !.ok = @ /\ (CtlOnly \/ p.w.taken \/ e.obs.got = p.w.body), !.want = [control |-> @, got |-> p.w.body]]
    [] e.op = "hijack" -> LET r == Op(s, [e EXCEPT !.obs = [st |-> @.st, wr |-> @.wr, sz |-> @.sz]], Do(s.p, Hijack))
                          IN  [r EXCEPT !.ok = @ /\ e.obs.got = s.p.w.wired]
    [] e.op = "hdr"    -> Op(s, e, Do(s.p, LAMBDA w : SetHdr(w, e.in.k, e.in.v)))
    [] e.op = "before" -> Op(s, e, Do(s.p, LAMBDA w : IF w.com THEN w ELSE AddHook(w, [id |-> e.in.hook, k |-> e.in.k, v |-> e.in.v, s |-> e.in.s])))
    [] e.op = "end"    ->
         LET w == s.p.w
             o == e.obs
             labelled == o.ce = "gzip"
             okc == \A i \in 1..Len(e.in.closers) :
                      e.in.closers[i] \in s.p.closed => e.in.closers[i] \in { o.closed[j] : j \in 1..Len(o.closed) }
         IN  [st |-> Idle] @@ Ok(/\ s.p.mode = "end" /\ o.panic = ""
                /\ (CtlOnly \/
                (/\ s.ran = w.ran /\ okc
                /\ o.status = w.sst /\ o.a = w.shdr.a /\ o.b = w.shdr.b /\ o.heads = w.heads
                /\ o.valid /\ o.toks = w.body /\ o.html = s.p.html /\ o.errs = s.p.errs
                /\ (~s.gz => ~labelled /\ o.ce = "")
                /\ (labelled => o.clok /\ o.vary)
                /\ (~o.html => IF w.shdr.ct # "" THEN o.ct = w.shdr.ct ELSE labelled /\ w.typed => o.ct = o.sniff))),
                s, s.p,
                [mode |-> s.p.mode, status |-> w.sst, hdr |-> w.shdr, body |-> w.body, errs |-> s.p.errs, hooks |-> w.ran, html |-> s.p.html])
    [] OTHER -> [ok |-> FALSE, st |-> s, want |-> "known event"]
=============================================================================
