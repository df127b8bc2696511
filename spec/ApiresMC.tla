------------------------------ MODULE ApiresMC ------------------------------
EXTENDS Apires, TLC, Json
CONSTANTS K
VARIABLES es, hist
vars == <<es, hist>>
Init == es = <<Err(404, 1, "m", "null")>> /\ hist = <<>>
Do(x, e) == hist' = Append(hist, x) /\ es' = Append(es, e)
Next == /\ Len(hist) < K
        /\ \/ \E c \in {0, 1}, s \in {0, 204, 404} : Do([op |-> "new", of |-> 0, s |-> s, c |-> c], Err(s, c, "m", "null"))
           \/ \E i \in DOMAIN es :
                \/ Do([op |-> "msg", of |-> i, s |-> 0, c |-> 0], WithMsg(es[i], "n"))
                \/ \E t \in {1, 2, 3} : Do([op |-> "data", of |-> i, s |-> 0, c |-> t],
                       WithData(es[i], "1", <<>>, IF t = 1 THEN <<"t">> ELSE <<>>))
                \/ hist' = Append(hist, [op |-> "write", of |-> i, s |-> 0, c |-> 0]) /\ UNCHANGED es
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = K => PrintT("SCEN " \o ToJson(hist))
Kept == [][\A i \in DOMAIN es : es'[i] = es[i]]_vars
(* a derived error is equal to its origin; equality is reflexive *)
Equal == [][\A i \in DOMAIN es : Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"msg", "data"} /\ hist'[Len(hist')].of = i
               => EqualAny(es'[Len(es')], <<es[i]>>)]_vars
Reflexive == \A i \in DOMAIN es : EqualAny(es[i], es)
NoBody == \A i \in DOMAIN es : (ErrReply(es[i]).r = "empty") = (es[i].status = 204)
=============================================================================
