------------------------------ MODULE CtxValMC ------------------------------
EXTENDS CtxVal, TLC, Json
CONSTANTS K, Types, Names
VARIABLES cs, hist
vars == <<cs, hist>>
Init == cs = Root /\ hist = <<>>
Next == /\ Len(hist) < K
        /\ \E c \in DOMAIN cs :
             \/ \E t \in Types, n \in Names : /\ cs' = With(cs, c, t, n, Len(cs) + 1)
                                              /\ hist' = Append(hist, [c |-> c, t |-> t, n |-> n])
             \/ /\ cs' = Derive(cs, c) /\ hist' = Append(hist, [c |-> c, t |-> 0, n |-> ""])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = K => PrintT("SCEN " \o ToJson(hist))
All == [DOMAIN cs -> [Types \X Names -> 0..(K + 1)]]
(* what is stored is found at once; other keys and other contexts see nothing of it *)
Local == [][LET c == Len(cs') IN
            /\ \A t \in Types, n \in Names :
                  Lookup(cs', c, t, n) = IF cs'[c].has /\ cs'[c].t = t /\ cs'[c].n = n THEN cs'[c].v ELSE Lookup(cs, cs'[c].up, t, n)
            /\ \A d \in DOMAIN cs, t \in Types, n \in Names : Lookup(cs', d, t, n) = Lookup(cs, d, t, n)]_vars
=============================================================================
