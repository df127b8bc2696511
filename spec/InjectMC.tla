------------------------------ MODULE InjectMC ------------------------------
(* Histories of registrations and lookups over a few keys in two scopes.    *)
(* Eval is how a resolver works: depth first, a key being provided is in    *)
(* progress, results are remembered.  TLC checks that it terminates (it is  *)
(* total), that it succeeds exactly when nothing stands in the way, and     *)
(* that without new registrations success never depends on what was looked  *)
(* up before.                                                               *)
EXTENDS Inject, Json

CONSTANTS Keys, MaxOps, MaxDeps, Show

VARIABLES s, n, hist, fresh      \* fresh: no registration after a lookup

ty(k) == T(k, 1)
dep(k) == [ty |-> ty(k), n |-> ""]
kk(k) == Key(ty(k), "")
DepSets == { ks \in SUBSET Keys : Cardinality(ks) <= MaxDeps }
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Deps(ks) == LET q == ToSeq(ks) IN [i \in 1..Len(q) |-> dep(q[i])]

RECURSIVE Eval(_, _, _, _)
RECURSIVE EvalAll(_, _, _, _)
Eval(st, sc, k, busy) ==          \* [ok, s]
  LET r == Resolve(st, sc, k)
  IN  IF Known(st, sc, k) THEN [ok |-> TRUE, s |-> st]
      ELSE IF r.id = 0 \/ k \in busy THEN [ok |-> FALSE, s |-> st]
      ELSE IF ~r.fn THEN [ok |-> TRUE, s |-> st]
      ELSE LET x == EvalAll(st, sc, r.deps, busy \cup {k})
           IN  IF x.ok THEN [ok |-> TRUE, s |-> Remember(x.s, sc, k, [p |-> r.id, r |-> 1])] ELSE x
EvalAll(st, sc, ds, busy) ==
  IF ds = <<>> THEN [ok |-> TRUE, s |-> st]
  ELSE LET x == Eval(st, sc, Key(Head(ds).ty, Head(ds).n), busy)
       IN  IF x.ok THEN EvalAll(x.s, sc, Tail(ds), busy) ELSE x

Init == s = AddScope(Init0, 1) /\ n = 0 /\ hist = <<>> /\ fresh = TRUE
Prov == \E sc \in 1..2, k \in Keys, ks \in DepSets :
          /\ s' = Register(s, sc, kk(k), [id |-> n + 1, fn |-> TRUE, ty |-> ty(k), deps |-> Deps(ks)])
          /\ hist' = Append(hist, [op |-> "prov", s |-> sc, k |-> k, ks |-> ToSeq(ks)])
          /\ fresh' = (fresh /\ \A i \in 1..Len(hist) : hist[i].op = "prov")
Find == \E sc \in 1..2, k \in Keys :
          /\ s' = Eval(s, sc, kk(k), {}).s
          /\ hist' = Append(hist, [op |-> "find", s |-> sc, k |-> k, ks |-> <<>>])
          /\ UNCHANGED fresh
Next == n < MaxOps /\ n' = n + 1 /\ (Prov \/ Find)
Spec == Init /\ [][Next]_<<s, n, hist, fresh>>

Sound == \A sc \in 1..2, k \in Keys : Eval(s, sc, kk(k), {}).ok = (Problems(s, sc, kk(k), {}) = {})
Plain == [s EXCEPT !.memo = <<<<>>, <<>>>>]
Free  == fresh => \A sc \in 1..2, k \in Keys : (Problems(s, sc, kk(k), {}) = {}) = (Problems(Plain, sc, kk(k), {}) = {})
OnlyNeeded == \A sc \in 1..2, k \in Keys :
   LET x == Eval(s, sc, kk(k), {})
   IN  /\ (DOMAIN x.s.memo[sc]) \ (DOMAIN s.memo[sc]) \subseteq Needed(s, sc, {kk(k)}, {})
       /\ x.ok => (DOMAIN x.s.memo[sc]) = (DOMAIN s.memo[sc]) \cup Needed(s, sc, {kk(k)}, {})
       /\ \A o \in {1, 2} \ {sc} : x.s.memo[o] = s.memo[o]
Emit == (Show /\ n = MaxOps) => PrintT("SCEN " \o ToJson([hist |-> hist]))
=============================================================================
