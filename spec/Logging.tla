------------------------------- MODULE Logging -------------------------------
(* Loggers (C27).  A text is the sequence of its lines.  The state holds the *)
(* global threshold and each logger's settings.                              *)
EXTENDS StrLib

Tags  == <<"[EMERGENCY]", "[ALERT]", "[CRITCIAL]", "[ERROR]", "[WARN]", "[NOTICE]", "[INFO]", "[DEBUG]">>
Codes == <<"37", "36", "35", "31", "33", "32", "34", "30">>
Debug == 8
Error == 4

Cat(a, b) == SubSeq(a, 1, Len(a) - 1) \o <<a[Len(a)] \o b[1]>> \o Tail(b)

(* id is the request id of a request logger, "" for a plain one *)
Fresh(id) == [id |-> id, prefix |-> <<IF id = "" THEN "" ELSE "[" \o id \o "]">>, level |-> Debug, stack |-> 0,
              color |-> FALSE, line |-> FALSE, short |-> FALSE, flat |-> TRUE, parser |-> "none"]
Own(g) == <<IF g.id = "" THEN "" ELSE "[" \o g.id \o "]">>

Set(g, what, v) ==
  CASE what = "prefix" -> [g EXCEPT !.prefix = Cat(Own(g), v)]
    [] what = "level"  -> [g EXCEPT !.level = v]
    [] what = "stack"  -> [g EXCEPT !.stack = v]
    [] what = "color"  -> [g EXCEPT !.color = v]
    [] what = "line"   -> [g EXCEPT !.line = v]
    [] what = "short"  -> [g EXCEPT !.short = v]
    [] what = "flat"   -> [g EXCEPT !.flat = v]
    [] what = "parser" -> [g EXCEPT !.parser = v]

Enabled(g, global, sev) == sev <= g.level /\ sev <= global

(* A record: severity, the message with all its values (all), without the    *)
(* first one (rest), the first one's text (first, <<>> if there is none),    *)
(* options, and the place it comes from: at = [full, short].                 *)
Extra(g, r) == CASE g.parser = "none"  -> <<"">>
                 [] g.parser = "const" -> <<"<c>">>
                 [] g.parser = "take"  -> IF r.first = <<>> THEN <<"">> ELSE Cat(Cat(<<"(">>, r.first), <<")">>)
Message(g, r) == IF g.parser = "take" /\ r.first # <<>> THEN r.rest ELSE r.all
Place(g, r) == IF g.line /\ ~r.hidden /\ r.at.full # "" THEN "[\"" \o (IF g.short THEN r.at.short ELSE r.at.full) \o "\"]" ELSE ""
Head_(g, r) == LET h == Cat(Cat(Cat(<<Tags[r.sev]>>, g.prefix), Extra(g, r)), <<Place(g, r)>>)
               IN  IF g.color THEN Cat(Cat(<<"^[[1;" \o Codes[r.sev] \o "m">>, h), <<"^[[0m">>) ELSE h
Text(g, r) == Cat(Cat(Head_(g, r), <<" ">>), Message(g, r))
WithStack(g, r) == /\ g.stack >= r.sev \/ r.stack
                   /\ ~(HasPrefix(Message(g, r)[1], "PANIC") \/ HasPrefix(Message(g, r)[1], "STACK"))

(* flat: one line, without the line break at the end *)
Unbroken(t) == IF t[Len(t)] = "" /\ Len(t) > 1 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
Printed(g, r) == IF g.flat THEN <<Join(IF WithStack(g, r) THEN Text(g, r) ELSE Unbroken(Text(g, r)), "\\n")>> ELSE Text(g, r)

(* what may follow: with a stack, more text *)
Begins(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : IF i < Len(p) THEN q[i] = p[i] ELSE HasPrefix(q[i], p[i])
Follows(g, r, lines, traced) ==
  IF WithStack(g, r) THEN traced /\ Begins(Printed(g, r), lines) /\ (g.flat => Len(lines) = 1)
  ELSE ~traced /\ lines = Printed(g, r)

(* a function run under the logger's guard *)
Guarded(r, sev) == [r EXCEPT !.sev = IF sev = 0 THEN Error ELSE sev, !.stack = TRUE]
=============================================================================
