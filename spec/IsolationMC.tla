----------------------------- MODULE IsolationMC -----------------------------
(* Two requests running every pair of scripts of K operations, in every     *)
(* interleaving: each ends as it does alone.  Every pair is a scenario.     *)
EXTENDS Isolation, Json
CONSTANT K
Ops == {"ctx", "val", "hdr", "fn", "see", "write"}
C(r) == [tok |-> r, q |-> r, rid |-> r, info |-> r, p |-> r, num |-> 0]
Tok == <<"r1", "r2">>
VARIABLES prog, pos, rs
vars == <<prog, pos, rs>>
Init == prog \in [1..2 -> [1..K -> Ops]] /\ pos = <<1, 1>> /\ rs = <<Req0, Req0>>
Arg(r, op, i) == Tok[r] \o ToString(i)
Next == \E r \in 1..2 :
  /\ pos[r] <= K
  /\ rs' = [rs EXCEPT ![r] = Do(@, C(Tok[r]), prog[r][pos[r]], "o", Arg(r, prog[r][pos[r]], pos[r]))]
  /\ pos' = [pos EXCEPT ![r] = @ + 1]
  /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars
RECURSIVE Alone(_, _, _)
Alone(r, q, i) == IF i > K THEN q ELSE Alone(r, Do(q, C(Tok[r]), prog[r][i], "o", Arg(r, prog[r][i], i)), i + 1)
Isolated == \A r \in 1..2 : pos[r] > K => Resp(rs[r], C(Tok[r])) = Resp(Alone(r, Req0, 1), C(Tok[r]))
Emit == pos = <<1, 1>> => PrintT("SCEN " \o ToJson([progs |-> prog]))
=============================================================================
