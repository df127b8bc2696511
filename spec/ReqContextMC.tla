---------------------------- MODULE ReqContextMC ----------------------------
(* A filter of the application, before and after it yields (1, 3), and the   *)
(* action (2) in between.                                                    *)
EXTENDS ReqContext, TLC, Json
CONSTANTS K
VARIABLES s, phase, hist
vars == <<s, phase, hist>>
Init == s = Enter(New, "f") /\ phase = 1 /\ hist = <<>>
C == IF phase = 2 THEN 2 ELSE 1
H == IF phase = 2 THEN "act" ELSE "f"
Op(op, k, v, c, t) == s' = t /\ hist' = Append(hist, [p |-> phase, op |-> op, k |-> k, v |-> v, c |-> c]) /\ UNCHANGED phase
Stops == {n \in DOMAIN s.ns : s.ns[n].k \in {"in", "stop"} /\ ~s.ns[n].flag}
Work == /\ Len(hist) < K
        /\ \/ \E k \in {"a", "b"} : Op("set", k, Len(hist) + 1, C, Set(s, C, k, Len(hist) + 1))
           \/ phase = 2 /\ Op("set", "a", Len(hist) + 1, 1, Set(s, 1, "a", Len(hist) + 1))
           \/ Op("reset", "", 0, C, Reset(s, C, H))
           \/ Op("empty", "", 0, C, Empty(s, C))
           \/ Op("bound", "", 0, C, Bound(s, C, 0))
           \/ \E d \in {1, 2} : Op("bound", "", d, C, Bound(s, C, d))
           \/ \E n \in Stops : Op("cancel", "", n, C, Cancel(s, n))
           \/ Op("other", "b", Len(hist) + 1, C, Other(s, H, "b", Len(hist) + 1))
           \/ s.inj = 0 /\ Op("provide", "", 1, C, [s EXCEPT !.inj = 1])
Pass == /\ phase < 3 /\ phase' = phase + 1 /\ UNCHANGED hist
        /\ s' = IF phase = 1 THEN Enter(s, "act") ELSE s
Next == Work \/ Pass
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = K /\ phase = 3 => PrintT("SCEN " \o ToJson(hist))
All == {View(s, n) : n \in DOMAIN s.ns}
(* what was cancelled stays cancelled, a context is never changed but by the *)
(* chain it stands for                                                        *)
Stays == [][\A n \in DOMAIN s.ns : n # 3 => /\ Over(s, Stop(s, n)) => Over(s', Stop(s', n)) \/ s.ns[n].k = "val"
                                            /\ s'.ns[n] = [s.ns[n] EXCEPT !.flag = s'.ns[n].flag]]_vars
(* the route's chain changes nothing of the application's unless it asks it to *)
Apart == [][phase = 2 /\ s'.cur[1] = s.cur[1] =>
              /\ View(s', s.cur[1]).vals = View(s, s.cur[1]).vals
              /\ View(s', s.cur[1]).dl = View(s, s.cur[1]).dl]_vars
(* the action starts with what the filter left *)
Inherits == phase = 2 /\ s.cur[2] = 3 => View(s, 3) = View(s, s.cur[1])
=============================================================================
