----------------------------- MODULE RoutingMC -----------------------------
(***************************************************************************)
(* Design model: routes, methods and filters are registered one after      *)
(* another over a small alphabet, in every order.                          *)
(***************************************************************************)
EXTENDS Routing, TLC

CONSTANTS Segments, MaxLen, MaxRoutes, ReqSegs, ReqLen

VARIABLES s, n

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, k) == IF k = 0 THEN {<<>>}
                  ELSE LET P == SeqsUpTo(S, k - 1)
                       IN  P \cup { Append(p, x) : p \in { q \in P : Len(q) = k - 1 }, x \in S }

Patterns == SeqsUpTo(Segments, MaxLen) \ {<<>>}
Requests == SeqsUpTo(ReqSegs, ReqLen) \ {<<>>}

Method(m, act) == [m |-> m, act |-> act, ctl |-> FALSE, meths |-> <<>>, custom |-> "",
                   filters |-> IF act = "x" THEN <<"f1", "f2">> ELSE <<"f2", "f1">>, exempts |-> IF m = "*" THEN <<"f1">> ELSE <<>>]
Node(p, m, act) == [parts |-> <<"">>, filters |-> <<>>, exempts |-> <<>>, methods |-> <<>>,
                    subs |-> << [parts |-> <<"">> \o p, filters |-> <<"f1">>, exempts |-> <<>>,
                                 methods |-> <<Method(m, act)>>, subs |-> <<>>] >>]

Init == s = Empty /\ n = 0
Add(p, m, act) == /\ ~s.bad
                  /\ n < MaxRoutes
                  /\ s' = Register(s, Node(p, m, act))
                  /\ n' = n + 1
Next == \E p \in Patterns, m \in {"GET"} : Add(p, m, "x")
NextM == \E p \in { q \in Patterns : Len(q) = 1 }, m \in {"GET", "HEAD", "POST", "*", "**"}, a \in {"x", "y"} : Add(p, m, a)

Spec  == Init /\ [][Next]_<<s, n>>
SpecM == Init /\ [][NextM]_<<s, n>>

(* C01: the search finds exactly the best matching pattern *)
ResolutionAgrees ==
  ~s.bad => \A r \in Requests : Descend(s.nodes, s.ends, <<>>, r) = Resolve(s.ends, r)
FoundIffMatched ==
  ~s.bad => \A r \in Requests : (Resolve(s.ends, r) = NONE) <=> ~ \E p \in s.ends : Matches(p, r)
BestIsUnique ==
  ~s.bad => \A r \in Requests :
    LET M == { p \in s.ends : Matches(p, r) }
    IN  M # {} => Cardinality({ p \in M : \A q \in M \ {p} : Better(p, q) }) = 1
ParamsExact ==                                  \* values re-assemble to the request
  ~s.bad => \A r \in Requests :
    LET p == Resolve(s.ends, r)
    IN  p # NONE => Len(ParamsOf(p, r)) = Cardinality({ i \in 1..Len(p) : ~IsLit(p[i]) })

(* C02: extending the route set never changes other patterns' declarations *)
OthersUntouched ==
  [][ ~s'.bad => \A p \in s.ends, m \in {"GET", "HEAD", "POST", "DELETE"} :
        (p # s'.decls[Len(s'.decls)].pat) => Dispatch(s', p, m) = Dispatch(s, p, m) ]_<<s, n>>

(* C03: precedence of declarations *)
Precedence ==
  ~s.bad => \A p \in s.ends, m \in {"GET", "HEAD", "POST", "DELETE"} :
    LET d == Dispatch(s, p, m)
        slots == { s.decls[i].m : i \in { j \in 1..Len(s.decls) : s.decls[j].pat = p } }
    IN  /\ (d = <<>>) <=> (slots \cap {m, "*", "**"} = {} /\ ~(m = "HEAD" /\ "GET" \in slots))
        /\ d # <<>> => d[1].d.pat = p
        /\ m \in slots => d[1].d.m = m
        /\ ("*" \in slots /\ d # <<>>) => d[1].d.m # "**"

(* C04: no duplicates, exempted filters absent *)
FiltersWellFormed ==
  \A i \in 1..Len(s.decls) :
    LET f == s.decls[i].filters
    IN  /\ Cardinality(Ran(f)) = Len(f)
        /\ s.decls[i].m = "*" => "f1" \notin Ran(f)
        /\ s.decls[i].m # "*" => f = <<"f1", "f2">>     \* inherited filters come first
=============================================================================
