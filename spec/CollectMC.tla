----------------------------- MODULE CollectMC -----------------------------
(* The loop as timers: each run sets the next one.  It collects as often as  *)
(* Collect!Count says, and at most once a minute per loop.                   *)
EXTENDS Collect
CONSTANTS Intervals, Steps, K
VARIABLES s, timers, n, k
vars == <<s, timers, n, k>>
Init == s = [now |-> 0, loops |-> <<>>] /\ timers = <<>> /\ n = 0 /\ k = 0
Due(i) == timers[i].at
NextDue == IF timers = <<>> THEN 0 ELSE CHOOSE t \in { Due(i) : i \in DOMAIN timers } : \A j \in DOMAIN timers : t <= Due(j)
Start(i) == /\ k < K /\ k' = k + 1 /\ s' = Begin(s, i) /\ n' = n + 1
            /\ timers' = Append(timers, [at |-> s.now + Every(i), d |-> Every(i)])
Waits == timers # <<>> => NextDue > s.now
Fire == /\ ~Waits /\ \E i \in DOMAIN timers : Due(i) = s.now /\ timers' = [timers EXCEPT ![i].at = @ + timers[i].d]
        /\ n' = n + 1 /\ UNCHANGED <<s, k>>
(* the clock stops at every deadline *)
Tick == /\ k < K /\ Waits /\ \E d \in Steps : 
             LET to == IF timers # <<>> /\ NextDue < s.now + d THEN NextDue ELSE s.now + d
             IN  s' = Pass(s, to - s.now)
        /\ k' = k + 1 /\ UNCHANGED <<timers, n>>
Next == (Waits /\ \E i \in Intervals : Start(i)) \/ Fire \/ Tick
Spec == Init /\ [][Next]_vars
Agrees == Waits => n = Count(s)
Rare == \A i \in DOMAIN s.loops : s.loops[i].d >= 60
=============================================================================
