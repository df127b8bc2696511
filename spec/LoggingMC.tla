------------------------------ MODULE LoggingMC ------------------------------
(* Histories of K settings followed by a record; every one is replayed.      *)
EXTENDS Logging, Json, FiniteSets
CONSTANTS K, Levels, Sevs
VARIABLES s, hist
Kinds == {"plain", "two", "break", "none", "panic"}
Settings == [what : {"level", "stack", "global"}, v : Levels] \cup [what : {"color", "line", "short", "flat"}, v : BOOLEAN]
            \cup [what : {"parser"}, v : {"none", "const", "take"}] \cup [what : {"prefix"}, v : {<<"p">>, <<"p", "q">>}]
Init == s = [global |-> Debug, log |-> Fresh("")] /\ hist = <<>>
Next == /\ Len(hist) < K
        /\ \E x \in Settings :
             /\ s' = IF x.what = "global" THEN [s EXCEPT !.global = x.v] ELSE [s EXCEPT !.log = Set(@, x.what, x.v)]
             /\ s' # s
             /\ hist' = Append(hist, x)
Spec == Init /\ [][Next]_<<s, hist>>
Emit == Len(hist) = K => PrintT("SCEN " \o ToJson(hist))

Rec(sev, all, rest, first, st_, hid) == [sev |-> sev, all |-> all, rest |-> rest, first |-> first, stack |-> st_, hidden |-> hid,
                                         at |-> [full |-> "/x/src/f.go:1", short |-> "f.go:1"]]
Recs == { Rec(v, m, <<"z", "">>, f, k, h) : v \in Sevs, m \in {<<"a">>, <<"a", "">>, <<"", "b", "">>, <<"PANIC x">>}, f \in {<<>>, <<"a", "b">>},
          k \in BOOLEAN, h \in BOOLEAN }
(* a flat record is one line and names its severity; everything of the message is in an unflattened one *)
Flat == \A r \in Recs : s.log.flat => Len(Printed(s.log, r)) = 1
Whole == \A r \in Recs : ~s.log.flat =>
           LET t == Text(s.log, r) m == Message(s.log, r)
           IN  \A i \in 2..Len(m) : t[Len(t) - Len(m) + i] = m[i]
Named == \A r \in Recs : Contains(Printed(s.log, r)[1], Tags[r.sev])
(* a severity that is enabled stays so for every graver one *)
Graver == \A v \in Sevs, w \in Sevs : v <= w /\ Enabled(s.log, s.global, w) => Enabled(s.log, s.global, v)
Silent == s.global = 0 => \A v \in Sevs : ~Enabled(s.log, s.global, v)
=============================================================================
