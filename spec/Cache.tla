------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The cache as one expiring map (C23), whatever the back end.             *)
(* A value is [k, hi, lo, s]: k = "n" is the number hi * 10^9 + lo,        *)
(* k = "t" the text s.  An entry is [has, v, dl]; dl is the second it dies *)
(* in, Never for none.  Because a failed call may or may not have taken    *)
(* effect, a key has a set of possible entries, narrowed by observation.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Giga == 1000000000
Never == 2147483647
NoVal == [k |-> "", hi |-> 0, lo |-> 0, s |-> ""]
Absent == [has |-> FALSE, v |-> NoVal, dl |-> 0]
Num(hi, lo) == [k |-> "n", hi |-> hi, lo |-> lo, s |-> ""]
Text(s) == [k |-> "t", hi |-> 0, lo |-> 0, s |-> s]

(* to: <<>> or <<seconds>> *)
Deadline(now, to) == LET n == IF to = <<>> THEN 0 ELSE to[1]
                     IN  IF n < 0 THEN Never ELSE IF n = 0 THEN now + 60 ELSE now + n
Alive(e, now) == e.has /\ (e.dl = Never \/ e.dl > now)
Seen(e, now) == IF Alive(e, now) THEN e ELSE Absent

(* n = <<hi, lo>>, both not negative *)
Plus(v, n) == LET lo == v.lo + n[2] IN Num(v.hi + n[1] + lo \div Giga, lo % Giga)
AtLeast(v, n) == v.hi > n[1] \/ (v.hi = n[1] /\ v.lo >= n[2])
Minus(v, n) == IF v.lo >= n[2] THEN Num(v.hi - n[1], v.lo - n[2]) ELSE Num(v.hi - n[1] - 1, v.lo + Giga - n[2])

R(r) == [r |-> r, v |-> NoVal]
(* what operation o does to an entry: [obs, e] *)
Effect(e0, o, now) ==
  LET e == Seen(e0, now)
      res(r, x) == [obs |-> R(r), e |-> x]
      miss == res("miss", Absent)
  IN CASE o.op = "set" -> res("ok", [has |-> TRUE, v |-> o.v, dl |-> Deadline(now, o.to)])
       [] o.op = "get" -> IF e.has THEN [obs |-> [r |-> "val", v |-> e.v], e |-> e] ELSE miss
       [] o.op = "has" -> res(IF e.has THEN "yes" ELSE "no", e)
       [] o.op = "touch" -> IF e.has THEN res("ok", [e EXCEPT !.dl = Deadline(now, o.to)]) ELSE miss
       [] o.op = "delete" -> IF e.has THEN res("ok", Absent) ELSE miss
       [] o.op \in {"incr", "decr"} ->
            IF ~e.has THEN miss
            ELSE IF e.v.k # "n" THEN res("err", e)
            ELSE res("ok", [e EXCEPT !.v = IF o.op = "incr" THEN Plus(@, o.n) ELSE Minus(@, o.n)])
       [] OTHER -> res("?", e)

(* the observation and entry when the back end fails *)
Faulty(e0, o, now) == { [obs |-> R("err"), e |-> e0] }
                      \union IF o.fault = "late" THEN { [obs |-> R("err"), e |-> Effect(e0, o, now).e] } ELSE {}
Results(e, o, now) == IF o.fault = "" THEN {Effect(e, o, now)} ELSE Faulty(e, o, now)

(* after clean: obs and the entries of any key *)
CleanResults(e, o) == IF o.fault = "" THEN { [obs |-> R("ok"), e |-> Absent] }
                      ELSE { [obs |-> R("err"), e |-> e] }
                           \union IF o.fault = "late" THEN { [obs |-> R("err"), e |-> Absent] } ELSE {}
=============================================================================
