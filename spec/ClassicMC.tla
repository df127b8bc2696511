------------------------------ MODULE ClassicMC ------------------------------
(* Small applications of the classic helpers, every one with every action. *)
EXTENDS Classic, TLC, Json, FiniteSets
CONSTANTS Deep
VARIABLE x
H(k, n, sev, via, two) == [k |-> k, n |-> n, sev |-> sev, via |-> via, two |-> two]
Plain(k, n) == H(k, n, 7, "Logger", FALSE)
Logs(n) == {H("log", n, 3, "ctx", FALSE), H("log", n, 7, "Logger", TRUE)}
Filters(n) == {Plain(k, n) : k \in {"mark", "with", "resp", "status", "panic", "late", "gap"}} \cup Logs(n)
Seqs(n) == {<<>>} \cup {<<f>> : f \in Filters(n)} \cup (IF Deep THEN {<<f, Plain("late", n + 1)>> : f \in Filters(n)} ELSE {})
Actions == {Plain(k, 9) : k \in {"text", "pair", "code", "none", "panic", "half", "missing", "resp", "gap"}} \cup Logs(9)
Opts == {[own |-> FALSE], [own |-> TRUE, color |-> FALSE, line |-> FALSE, short |-> FALSE, flat |-> TRUE, stack |-> 0]}
Init == x \in [mode : {"dev", "prod"}, glob : BOOLEAN, opt : Opts, hook : Seqs(1), later : Seqs(4), act : Actions]
Next == FALSE
Spec == Init /\ [][Next]_x
Emit == PrintT("SCEN " \o ToJson(x))

R == Outcome(x, x.act)
Ks(k) == {i \in DOMAIN R.recs : R.recs[i].kind = k}
PanicOnce == Cardinality(Ks("panic")) = (IF R.pan = "" THEN 0 ELSE 1) /\ (\A i \in Ks("panic") : i = Len(R.recs))
PanicNamed == \A i \in Ks("panic") : (R.recs[i].id = "RQ") = R.logged
BegEnd == /\ Cardinality(Ks("beg")) = (IF R.logged THEN 1 ELSE 0)
          /\ Cardinality(Ks("end")) <= Cardinality(Ks("beg"))
          /\ \A i \in Ks("beg"), j \in Ks("end") : i < j /\ R.recs[j].status = (IF R.pan # "" /\ Final(R) = 500 THEN 200 ELSE Final(R))
Ended == R.logged /\ R.pan = "" => Ks("end") # {}
Answered == Final(R) = 500 <=> (R.pan # "" /\ R.body \in {"", "PANIC " \o R.pan} /\ R.status = 500)
Kept == R.pan # "" /\ R.status # 500 => R.status # 0
Flat == \A i \in DOMAIN R.recs : Prod(x) /\ R.recs[i].id \in {"RQ", "host"} => ~R.recs[i].many
=============================================================================
