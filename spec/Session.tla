------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Sessions kept in a store and found by a signed cookie (C21).            *)
(*   store[sid]  the set of entries [has, vals, dl] the store may hold     *)
(*               (one, unless a call failed half-way)                      *)
(*   issued[t]   [sid, at]: the session cookies this server gave out       *)
(*   req[r]      the cookie request r presents (its last of that name), "" *)
(*   h[i]        session objects in use: [sid, vals, changed, closed]      *)
(* vals is a function from keys to values and always has the key "_".      *)
(* Times are seconds; exp is the session lifetime.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NoVals == [x \in {"_"} |-> ""]
Absent == [has |-> FALSE, vals |-> NoVals, dl |-> 0]
Alive(e, now) == e.has /\ e.dl > now
Entry(vals, now, exp) == [has |-> TRUE, vals |-> vals, dl |-> now + exp]
In(f, x) == x \in DOMAIN f
Entries(s, sid) == IF In(s.store, sid) THEN s.store[sid] ELSE {Absent}
Put(f, x, v) == (x :> v) @@ f
Without(f, x) == [k \in DOMAIN f \ {x} |-> f[k]]

Valid(s, r) == LET t == s.req[r] IN In(s.issued, t) /\ s.issued[t].at + s.exp > s.now
SidOf(s, r) == s.issued[s.req[r]].sid
Known(s) == { s.issued[t].sid : t \in DOMAIN s.issued }

Handle(sid, vals, changed) == [sid |-> sid, vals |-> vals, changed |-> changed, closed |-> FALSE]
(* a new session, with its cookie t *)
Fresh(s, r, sid, t, vals, changed, i) ==
  [s EXCEPT !.issued = Put(@, t, [sid |-> sid, at |-> s.now]), !.req[r] = t, !.h = Put(@, i, Handle(sid, vals, changed))]

(* possible data of an existing session: [vals, store after] for each entry it may be *)
Look(s, sid) == { [vals |-> IF Alive(e, s.now) THEN e.vals ELSE NoVals, live |-> Alive(e, s.now), e |-> e] : e \in Entries(s, sid) }

SetVal(s, i, k, v) == [s EXCEPT !.h[i].vals = Put(@, k, v), !.h[i].changed = TRUE]
DelVal(s, i, k) == [s EXCEPT !.h[i].vals = IF In(@, k) THEN Without(@, k) ELSE @, !.h[i].changed = TRUE]
CleanVals(s, i) == [s EXCEPT !.h[i].vals = NoVals, !.h[i].changed = TRUE]
(* saving: set of [err, s] *)
Flush(s, i, fault) ==
  LET x == s.h[i]
      new == Entry(x.vals, s.now, s.exp)
  IN  IF x.closed \/ ~x.changed THEN { [err |-> FALSE, s |-> s] }
      ELSE CASE fault = "" -> { [err |-> FALSE, s |-> [s EXCEPT !.store = Put(@, x.sid, {new}), !.h[i].changed = FALSE]] }
             [] fault = "late" -> { [err |-> TRUE, s |-> [s EXCEPT !.store = Put(@, x.sid, Entries(s, x.sid) \union {new})]] }
             [] OTHER -> { [err |-> TRUE, s |-> s] }
Touched(s, e) == [e EXCEPT !.dl = s.now + s.exp]
Touch(s, i, fault) ==
  LET sid == s.h[i].sid
      es == Entries(s, sid)
      live == { e \in es : Alive(e, s.now) }
  IN CASE fault = "" ->
            (IF live # {} THEN { [err |-> FALSE, s |-> [s EXCEPT !.store = Put(@, sid, { Touched(s, e) : e \in live })]] } ELSE {})
            \union (IF es # live THEN { [err |-> TRUE, s |-> [s EXCEPT !.store = Put(@, sid, es \ live)]] } ELSE {})
       [] fault = "late" -> { [err |-> TRUE, s |-> [s EXCEPT !.store = Put(@, sid, es \union { Touched(s, e) : e \in live })]] }
       [] OTHER -> { [err |-> TRUE, s |-> s] }
Gone(s, sid, fault) == CASE fault = "" -> [s EXCEPT !.store = Put(@, sid, {Absent})]
                         [] fault = "late" -> [s EXCEPT !.store = Put(@, sid, Entries(s, sid) \union {Absent})]
                         [] OTHER -> s
DestroyHandle(s, i, fault) ==
  LET s1 == Gone([s EXCEPT !.h[i].closed = TRUE, !.h[i].vals = NoVals], s.h[i].sid, fault)
      any == \E e \in Entries(s, s.h[i].sid) : ~Alive(e, s.now)
  IN  { [err |-> b, s |-> s1] : b \in IF fault # "" THEN {TRUE} ELSE IF any THEN BOOLEAN ELSE {FALSE} }
(* moving the data of sid to the new id *)
Move(s, r, old, sid, t, vals, i) ==
  Fresh([s EXCEPT !.store = Put(Put(@, old, {Absent}), sid, {Entry(vals, s.now, s.exp)})], r, sid, t, vals, FALSE, i)
=============================================================================
