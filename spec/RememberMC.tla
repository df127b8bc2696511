----------------------------- MODULE RememberMC -----------------------------
(* Histories of remember-me cookies of two users whose salts change; every  *)
(* cookie is written before it is shown, a hash is known once read.          *)
EXTENDS Token, Json
CONSTANTS N, Exp

VARIABLES now, R, hist
vars == <<now, R, hist>>
Psks == {1, 2}
Salts == {1, 2}
(* R holds cookies by their number: v = hash = number *)
Mk(i, u, s) == [m |-> 0, psk |-> u, salt |-> s, v |-> i, hash |-> i, at |-> now]
Writes == Len(SelectSeq(hist, LAMBDA x : x[1] = "write"))

Write(u, s) == R' = R \union {Mk(Writes + 1, u, s)} /\ hist' = Append(hist, <<"write", u, s, 0>>) /\ UNCHANGED now
HasC(i) == hist' = Append(hist, <<"has", 0, 0, i>>) /\ UNCHANGED <<now, R>>
ValidC(u, s, i) == hist' = Append(hist, <<"valid", u, s, i>>) /\ UNCHANGED <<now, R>>
Adv(op, d) == now' = now + d /\ hist' = Append(hist, <<op, 0, 0, 0>>) /\ UNCHANGED R

Init == now = 0 /\ R = {} /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \/ Writes < 2 /\ \E u \in Psks, s \in Salts : Write(u, s)
           \/ \E i \in 1..Writes : HasC(i)
           \/ \E i \in 1..Writes, u \in Psks, s \in Salts : ValidC(u, s, i)
           \/ R # {} /\ Adv("adv", Exp \div 2 + 2)
           \/ R # {} /\ Adv("long", Exp + 5)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = N => PrintT("SCEN " \o ToJson(hist))

Accepts(i) == Found(R, 0, i, now, Exp) # {}
Vouches(u, s, i) == \E r \in R : r.hash = i /\ r.psk = u /\ r.salt = s /\ Fresh(r, now, Exp)
(* a hash vouches for one user and one salt at most, and only while its cookie is accepted *)
OneUser == \A i \in 1..Writes : \A u, w \in Psks : \A s, z \in Salts :
              Vouches(u, s, i) /\ Vouches(w, z, i) => u = w /\ s = z
Together == \A i \in 1..Writes : Accepts(i) <=> \E u \in Psks, s \in Salts : Vouches(u, s, i)
(* time passing never makes a cookie acceptable *)
Never == [][\A i \in 1..Writes : ~Accepts(i) => ~Accepts(i)']_vars
=============================================================================
