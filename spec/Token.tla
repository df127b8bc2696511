------------------------------- MODULE Token -------------------------------
(***************************************************************************)
(* Signed values (C20) and remember-me cookies (C22).                      *)
(* Values are only compared, never looked into: v stands for the exact     *)
(* text of a value.  Signing is a record of what was issued; a value is    *)
(* valid under a key exactly if it was issued under that key.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* S: set of [key, text, at, v] *)
CanSign(key, text) == key # "" /\ text # "\"\""          \* texts are quoted
SignOk(S, key, text, at, v) == \A r \in S : r.v = v => r.key = key /\ r.text = text /\ r.at = at
Sign(S, key, text, at, v) == S \union {[key |-> key, text |-> text, at |-> at, v |-> v]}
Verify(S, key, v) == { r \in S : r.key = key /\ r.v = v }

(* R: set of [m, psk, salt, v, hash, at]; hash is "" until it was seen *)
CanRemember(psk, salt) == psk # "" /\ salt # ""
Written(R, m, psk, salt, v, now) == R \union {[m |-> m, psk |-> psk, salt |-> salt, v |-> v, hash |-> "", at |-> now]}
Fresh(r, now, exp) == r.at + exp > now
Found(R, m, v, now, exp) == { r \in R : r.m = m /\ r.v = v /\ Fresh(r, now, exp) }
HashOk(R, r, hash) == /\ hash # "" /\ (r.hash = "" \/ r.hash = hash)
                      /\ \A q \in R : q.hash = hash => q.psk = r.psk /\ q.salt = r.salt /\ q.m = r.m /\ q.at = r.at
Learn(R, r, hash) == (R \ {r}) \union {[r EXCEPT !.hash = hash]}
Checks(R, m, psk, salt, hash, now, exp) ==
  /\ psk # "" /\ salt # "" /\ hash # ""
  /\ \E r \in R : r.m = m /\ r.psk = psk /\ r.salt = salt /\ r.hash = hash /\ Fresh(r, now, exp)
=============================================================================
