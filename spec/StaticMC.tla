------------------------------ MODULE StaticMC ------------------------------
(* Every path of up to N segments against a small tree. *)
EXTENDS Static, Json
CONSTANTS N
Segs == {"", ".", "..", "a", "f.txt", "www", "secret.txt"}
Tree == [files |-> ("/f.txt" :> "F") @@ ("/a/f.txt" :> "AF") @@ ("/a/index.html" :> "AI") @@ ("/www/f.txt" :> "WF"),
         dirs |-> {"/", "/a", "/www"}]
Filters == { [prefix |-> p, any |-> FALSE, try |-> t, skip |-> k] :
               p \in {<<"">>, <<"a">>, <<"", "www", "">>}, t \in {<<"">>, <<"f.txt">>, <<"..", "secret.txt">>}, k \in {<<>>, <<"/a">>} }
VARIABLE path
Init == path = <<"">>
Next == Len(path) <= N /\ \E s \in Segs : path' = Append(path, s)
Spec == Init /\ [][Next]_path
Emit == Len(path) > 1 => PrintT("SCEN " \o ToJson(path))
A(f, ps) == Answer(Tree, f, "GET", ps)
(* only contents of the tree; other methods pass; a redirect leads to an answer, not to another redirect *)
Inside == \A f \in Filters : A(f, path).r = "content" => A(f, path).c \in {"F", "AF", "AI", "WF"}
Others == \A f \in Filters : Answer(Tree, f, "POST", path) = Pass
(* ".." never leaves, redundant parts do not matter *)
Same == LET c == <<"">> \o Clean(path)
            d == IF path[Len(path)] = "" THEN Append(c, "") ELSE c
            f == [prefix |-> <<"">>, any |-> FALSE, try |-> <<"">>, skip |-> <<>>]
        IN  A(f, path).r # "redirect" /\ path[Len(path)] \notin {".", ".."} => A(f, path) = A(f, d)
Final == \A f \in Filters : A(f, path).r = "redirect" /\ f.skip = <<>> => A(f, Append(path, "")).r \in {"content", "404"}
=============================================================================
