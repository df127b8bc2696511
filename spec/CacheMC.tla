------------------------------ MODULE CacheMC ------------------------------
(* Every history of N calls over two keys, with the clock advancing, as the *)
(* specification allows it; replayed against every back end.                *)
EXTENDS Cache, Json
CONSTANTS N, Short     \* Short: fewer kinds of call

VARIABLES now, m, hist, last
vars == <<now, m, hist, last>>
Keys == {1, 2}
Mk(op, k) == [op |-> op, key |-> k, v |-> NoVal, to |-> <<>>, n |-> <<0, 0>>, s |-> 0, fault |-> ""]
Calls ==
  UNION { { [Mk("set", k) EXCEPT !.v = v, !.to = t] :
              v \in {Num(0, 10), Text("tx")}, t \in (IF Short THEN {<<>>, <<5>>} ELSE {<<>>, <<0>>, <<5>>, <<-1>>}) }
          \union { [Mk("touch", k) EXCEPT !.to = t] : t \in (IF Short THEN {<<5>>, <<-1>>} ELSE {<<>>, <<0>>, <<5>>, <<-1>>}) }
          \union { Mk(op, k) : op \in {"get", "has", "delete"} }
          \union { [Mk(op, k) EXCEPT !.n = <<0, 1>>] : op \in {"incr", "decr"} } : k \in Keys }
  \union { Mk("clean", 0) }
Adv == { [Mk("adv", 0) EXCEPT !.s = d] : d \in {3, 30, 100} }

Init == now = 0 /\ m = [k \in Keys |-> Absent] /\ hist = <<>> /\ last = R("ok")
Live(k) == Alive(m[k], now)
Next ==
  /\ Len(hist) < N
  /\ \E o \in Calls \union Adv :
       /\ hist' = Append(hist, o)
       /\ CASE o.op = "adv" -> /\ \A k \in Keys : Live(k) /\ m[k].dl # Never => (m[k].dl - now - o.s) \notin {-1, 0, 1}
                               /\ now' = now + o.s /\ UNCHANGED <<m, last>>
            [] o.op = "clean" -> m' = [k \in Keys |-> Absent] /\ last' = R("ok") /\ UNCHANGED now
            [] OTHER -> LET r == Effect(m[o.key], o, now)
                        IN  m' = [m EXCEPT ![o.key] = r.e] /\ last' = r.obs /\ UNCHANGED now
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = N => PrintT("SCEN " \o ToJson(
  [i \in 1..N |-> <<hist[i].op, hist[i].key, hist[i].v.k, hist[i].to, hist[i].s>>]))
Op == hist[Len(hist)].op
(* once a key's last deadline has passed it is as if never stored *)
Gone == \A k \in Keys : ~Live(k) =>
   \A op \in {"get", "touch", "delete", "incr", "decr"} : Effect(m[k], Mk(op, k), now).obs = R("miss")
Kept == \A k \in Keys : Live(k) => Effect(m[k], Mk("get", k), now).obs = [r |-> "val", v |-> m[k].v]
(* only calls on a key change it, and only the clock kills it *)
Indep == [][\A k \in Keys : m'[k] # m[k] => hist'[Len(hist')].key \in {k, 0}]_vars
NoSpontaneous == [][\A k \in Keys : Alive(m[k], now) /\ ~Alive(m'[k], now') =>
                       hist'[Len(hist')].op \in {"adv", "delete", "clean"}]_vars
=============================================================================
