------------------------------ MODULE ConfigMC ------------------------------
(* Every line up to MaxLen over Alphabet, in a file after a section header. *)
EXTENDS Config, Json

CONSTANTS Alphabet, MaxLen, Show
VARIABLES txt
Init == txt = <<>>
Next == Len(txt) < MaxLen /\ \E x \in Alphabet : txt' = Append(txt, x)
Spec == Init /\ [][Next]_txt

Emit == Show => PrintT("SCEN " \o ToJson([s |-> Cat(txt)]))
Ln(c) == [s |-> Cat(c), c |-> c]
F(lines) == Load(<<Ln(<<"[", "s", "]">>)>> \o lines)
(* a quoted value is exact; comments and blank lines change nothing; an     *)
(* accepted line adds at most one key, and loading it twice changes nothing *)
(* but automatic numbers                                                    *)
Exact == (\A i \in 1..Len(txt) : txt[i] # "`") =>
           LET f == F(<<Ln(<<"k", "=", "`">> \o txt \o <<"`">>)>>)
           IN  f.ok /\ LastOf(f.asg, "s", "k") = Cat(txt)
Comment == LET a == F(<<Ln(txt)>>)
           IN  /\ F(<<Ln(<<"#">> \o txt), Ln(txt), Ln(<<" ">>)>>) = a
               /\ a.ok => Len(a.asg) <= 1 /\ "s" \in a.secs
Twice == LET a == F(<<Ln(txt)>>)
             b == F(<<Ln(txt), Ln(txt)>>)
         IN  a.ok => b.ok /\ \A i \in 1..Len(a.asg) : Listed(a, a.asg[i].sec) \subseteq Listed(b, a.asg[i].sec)
=============================================================================
