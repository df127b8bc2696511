------------------------------ MODULE ReqLogMC ------------------------------
(* Two concurrent requests with every script of K operations: whatever the  *)
(* interleaving, records come in order and ids differ.  Scripts are replayed.*)
EXTENDS ReqLog, Json
CONSTANT K
Ops == {"see", "log", "tamper", "write", "status", "panic"}
VARIABLES rec, prog, pos, q, out
vars == <<rec, prog, pos, q, out>>
O == [idf |-> "", pre |-> FALSE, begf |-> "", endf |-> "", rec |-> rec]
C(r) == [tok |-> ToString(r), cid |-> "", cidn |-> 0, what |-> "", real |-> "", fwd |-> <<>>, peer |-> ""]
NewIds == <<"id-number-one", "id-number-two">>
Rec(kind, r) == [id |-> NewIds[r], prefix |-> "", kind |-> kind, lvl |-> "INFO", what |-> "", addr |-> "", tag |-> FALSE,
                 status |-> Status(q[r]), mkb |-> (q[r].size * 1000 + 512) \div 1024, msg |-> ""]
Msg(r) == [Rec("msg", r) EXCEPT !.lvl = Head(q[r].pend).lvl, !.msg = Head(q[r].pend).msg]
Init == /\ rec \in {"out", "in", ""}
        /\ prog \in [1..2 -> [1..K -> Ops]]
        /\ \A r \in 1..2 : \A i \in 1..(K-1) : prog[r][i] = "panic" => prog[r][i+1] = "panic"
        /\ pos = <<0, 0>> /\ q = <<Q0, Q0>> /\ out = <<>>
Print1(r, x) == /\ IdOk(O, C(r), q[r], {q[3 - r].id}, x.id) /\ RecOk(O, C(r), q[r], x)
                /\ q' = [q EXCEPT ![r] = AfterRec(Named(@, x.id), x)]
                /\ out' = Append(out, <<r, x.kind>>)
                /\ UNCHANGED <<rec, prog>>
Do(r, op) == CASE op = "log" -> Log(q[r], "INFO", "m") [] op = "write" -> Write(q[r], 2) [] op = "status" -> SetStatus(q[r], 201)
               [] op = "panic" -> Panic(O, C(r), q[r]) [] OTHER -> q[r]
Step(r) ==
  \/ pos[r] = 0 /\ Print1(r, Rec("beg", r)) /\ pos' = [pos EXCEPT ![r] = 1]
  \/ q[r].pend # <<>> /\ Print1(r, Msg(r)) /\ UNCHANGED pos
  \/ /\ pos[r] \in 1..K /\ q[r].pend = <<>> /\ ~q[r].pan
     /\ q' = [q EXCEPT ![r] = Do(r, prog[r][pos[r]])] /\ pos' = [pos EXCEPT ![r] = @ + 1] /\ UNCHANGED <<rec, prog, out>>
  \/ /\ (pos[r] = K + 1 \/ q[r].pan) /\ ~(q[r].pan /\ rec # "in") /\ ~q[r].end /\ q[r].pend = <<>>
     /\ Print1(r, Rec("end", r)) /\ UNCHANGED pos
Next == Step(1) \/ Step(2)
Spec == Init /\ [][Next]_vars
Idle(r) == ~ENABLED Step(r)
Emit == pos = <<0, 0>> => PrintT("SCEN " \o ToJson([rec |-> rec, progs |-> prog]))
Completes == \A r \in 1..2 : Idle(r) => Complete(O, q[r])
Distinct == q[1].id # "" => q[1].id # q[2].id
Ordered == \A r \in 1..2 : \A i \in 1..Len(out) :
   out[i][1] = r => (out[i][2] = "beg") = (\A j \in 1..(i-1) : out[j][1] # r)
=============================================================================
