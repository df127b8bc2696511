------------------------------ MODULE TokenMC ------------------------------
(***************************************************************************)
(* Why issued values cannot be recombined.  A value is <<text, time, mac>>;*)
(* a mac is the key and the string it was taken over, which nobody without *)
(* the key can make.  Someone who sees up to N issued values may join any  *)
(* text and time with any mac seen, or made with a key of his own.         *)
(* Texts may contain the separator 0, times (digits) may not; without the  *)
(* separator (Sep = <<>>) TLC finds <<1,1>>,<<1>> against <<1>>,<<1,1>>.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sep, N, L
SepVal == <<0>>
NoSep == <<>>

RECURSIVE Str(_, _)
Str(A, n) == IF n = 0 THEN {<<>>} ELSE Str(A, n - 1) \union { <<a>> \o s : a \in A, s \in Str(A, n - 1) }
Texts == Str({0, 1, 2}, L)
Times == Str({1, 2}, L) \ {<<>>}
Keys == {"k1", "k2"}        \* of the servers
Mac(key, t, ts) == <<key, t \o Sep \o ts>>

VARIABLE issued            \* [key, t, ts]
Init == issued = {}
Next == /\ Cardinality(issued) < N
        /\ \E k \in Keys, t \in Texts \ {<<>>}, ts \in Times :
             issued' = issued \union {[key |-> k, t |-> t, ts |-> ts]}
Spec == Init /\ [][Next]_issued

Known == { Mac(r.key, r.t, r.ts) : r \in issued }
Own(t, ts) == { Mac(k, t, ts) : k \in {"own", ""} }
Accept(key, t, ts, mac) == key # "" /\ t # <<>> /\ mac = Mac(key, t, ts)
Unforgeable ==
  \A k \in Keys \union {""}, t \in Texts, ts \in Times :
    \A mac \in Known \union Own(t, ts) :
       Accept(k, t, ts, mac) => [key |-> k, t |-> t, ts |-> ts] \in issued
=============================================================================
