------------------------------ MODULE WorkerMC ------------------------------
(* The pool under every program of K calls, each made by an actor of its    *)
(* own in this order; every program is also a scenario for the driver.      *)
EXTENDS Worker, Json

CONSTANTS K, N
Ops == {"ok", "err", "wait", "close"}

VARIABLES p, prog, at
vars == <<p, prog, at>>
Init == at = 1 /\ \E n \in N : p = Pool0(n) /\ prog \in [1..K -> Ops]

Call == /\ at <= K
        /\ at' = at + 1
        /\ prog' = prog
        /\ p' \in CASE prog[at] = "wait" -> Wait(p, at)
                    [] prog[at] = "close" -> CloseCall(p, at)
                    [] OTHER -> Sub(p, at)
Act == /\ UNCHANGED <<at, prog>>
       /\ \/ p' \in Silent(p)
          \/ \E i \in DOMAIN p.t : \/ i \notin p.ret /\ p' \in SubRet(p, i)
                                   \/ p' \in Begin(p, i)
                                   \/ p' \in End(p, i, prog[i] = "err")
          \/ \E c \in p.c : p.closed /\ p' \in CloseRet(p, c)
          \/ \E j \in DOMAIN p.w : p' \in WaitRet(p, j, p.w[j].err)
Over == at > K /\ In(p, {"call", "acc", "run", "end"}) = {} /\ p.c = {} /\ \A j \in DOMAIN p.w : p.w[j].st = "ret"
        /\ DOMAIN p.t \subseteq p.ret
Next == Call \/ Act \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Act) /\ WF_vars(Call)

Emit == at = 1 => PrintT("SCEN " \o ToJson([n |-> p.n, ops |-> prog]))
Bounded == Running(p) <= p.n
ErrCloses == p.err # 0 => p.closed /\ p.t[p.err] = "done" /\ p.err \in p.bad
Taken == \A j, k \in DOMAIN p.w : j # k /\ p.w[j].err # 0 => p.w[k].err = 0   \* reported once
Errless == (\A i \in DOMAIN p.t : prog[i] # "err") => \A j \in DOMAIN p.w : p.w[j].err = 0
OpenRuns == ~p.closed => In(p, {"rej"}) = {}
Ends == <>Over
=============================================================================
