------------------------------- MODULE Apires -------------------------------
(* API errors and responses (C28).  Errors are values: deriving one makes a  *)
(* new value, and nothing changes an old one.                                *)
EXTENDS Integers, Sequences

(* data is the value's JSON text ("null" for none, "!" for a value which has *)
(* none)                                                                     *)
Err(status, code, msg, data) == [status |-> status, code |-> code, msg |-> msg, data |-> data]

(* with data: the message is the one given, or the text of an error or a     *)
(* string, or stays                                                          *)
WithData(e, data, given, text) == [e EXCEPT !.data = data, !.msg = IF given # <<>> THEN given[1] ELSE IF text # <<>> THEN text[1] ELSE @]
WithMsg(e, msg) == [e EXCEPT !.msg = msg]
EqualAny(e, others) == \E i \in DOMAIN others : others[i].status = e.status /\ others[i].code = e.code

Status(n) == IF n = 0 THEN 200 ELSE n

(* What a response is, by the kind of its body:                              *)
(*   error  an API error                                                     *)
(*   json   a value, text its JSON text; bad: a value without one            *)
(*   none   no body: an empty object for responses, nothing for raw ones     *)
(*   text   text, bytes or a stream of a raw response                        *)
(* r: "empty" no body; "error" a JSON error; "json"; "text"; "failed" any    *)
(* well-formed error with the status or 500                                  *)
Reply(kind, raw, status, text) ==
  LET s == Status(status) IN
  IF s = 204 THEN [r |-> "empty", status |-> 204, text |-> ""]
  ELSE CASE kind = "json" -> [r |-> "json", status |-> s, text |-> text]
         [] kind = "bad"  -> [r |-> "failed", status |-> s, text |-> ""]
         [] kind = "none" -> IF raw THEN [r |-> "empty", status |-> s, text |-> ""] ELSE [r |-> "json", status |-> s, text |-> "{}"]
         [] kind = "text" -> [r |-> "text", status |-> s, text |-> text]
ErrReply(e) ==
  IF Status(e.status) = 204 THEN [r |-> "empty", status |-> 204, text |-> ""]
  ELSE IF e.data = "!" THEN [r |-> "failed", status |-> Status(e.status), text |-> ""]
  ELSE [r |-> "error", status |-> Status(e.status), text |-> ""]
=============================================================================
