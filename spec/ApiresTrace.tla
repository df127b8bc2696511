---------------------------- MODULE ApiresTrace ----------------------------
EXTENDS Apires, TraceLib
GStart(cfg) == <<>>
(* how an error looks: its status, and its JSON forms *)
Seen(e) == [status |-> e.status, code |-> e.code, msg |-> e.msg, data |-> e.data,
            said |-> IF e.data = "!" THEN [code |-> 0, msg |-> "", data |-> "!"] ELSE [code |-> e.code, msg |-> e.msg, data |-> e.data]]
Snap(es) == [i \in DOMAIN es |-> Seen(es[i])]

Sent(w, e, o) ==
  CASE w.r = "empty"  -> o.status = w.status /\ o.len = 0
    [] w.r = "json"   -> o.status = w.status /\ o.json /\ o.text = w.text
    [] w.r = "text"   -> o.status = w.status /\ o.text = w.text
    [] w.r = "failed" -> o.status \in {w.status, 500} /\ o.json /\ o.fields.code # 0 /\ o.fields.msg # ""
    [] w.r = "error"  -> o.status = w.status /\ o.json /\ o.fields = [code |-> e.code, msg |-> e.msg, data |-> e.data]

GStep(es, e) ==
  LET in == e.in
      R(es2, ok) == [ok |-> ok /\ e.obs.snap = Snap(es2), st |-> es2, want |-> Snap(es2)]
  IN
  CASE e.op = "new"  -> R(Append(es, Err(in.status, in.code, in.msg, in.data)), TRUE)
    [] e.op = "data" -> R(Append(es, WithData(es[in.of], in.data, in.given, in.text)), TRUE)
    [] e.op = "msg"  -> R(Append(es, WithMsg(es[in.of], in.msg)), TRUE)
    [] e.op = "equal" -> LET q == [i \in DOMAIN in.others |-> es[in.others[i]]]
                         IN  R(es, e.obs.eq = EqualAny(es[in.of], q))
    [] e.op = "send" -> LET w == ErrReply(es[in.of])
                            ok == \A i \in DOMAIN e.obs.outs : Sent(w, es[in.of], e.obs.outs[i])
                        IN  [ok |-> ok /\ (w.r # "failed" => e.obs.quiet) /\ e.obs.snap = Snap(es), st |-> es, want |-> [w |-> w, snap |-> Snap(es)]]
    [] e.op = "reply" -> LET w == Reply(in.kind, in.raw, in.status, in.text)
                             ok == \A i \in DOMAIN e.obs.outs : Sent(w, 0, e.obs.outs[i])
                         IN  [ok |-> ok /\ (IF in.broken THEN ~e.obs.quiet ELSE w.r # "failed" => e.obs.quiet) /\ (in.stream => e.obs.closed = 1) /\ e.obs.snap = Snap(es), st |-> es, want |-> [w |-> w, snap |-> Snap(es)]]
=============================================================================
