----------------------------- MODULE ConvertMC -----------------------------
(* Every text up to MaxLen over Alphabet, for every kind: conversions yield *)
(* values of the kind, are stable, and fit the kind's range.  With Show,   *)
(* each text is emitted as a scenario.                                      *)
EXTENDS Convert, Json

CONSTANTS Alphabet, MaxLen, Show

VARIABLES txt
T == [s |-> Cat(txt), c |-> txt]

Init == txt = <<>>
Next == /\ Len(txt) < MaxLen
        /\ \E x \in Alphabet : txt' = Append(txt, x)
Spec == Init /\ [][Next]_txt

Emit == Show => PrintT("SCEN " \o ToJson([s |-> T.s]))

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Text(s) == [s |-> s, c |-> Chars(s)]
Stable == \A k \in Numeric : LET v == Conv(k, T)[2] IN Conv(k, Text(v))[2] = v
Narrow == \A k \in {"int8", "int16", "int32", "uint8", "uint16", "uint32"} :
            LET v == Conv(k, T)[2] IN v # "0" => Conv(IF k \in IntKinds THEN "int64" ELSE "uint64", T)[2] = v
Signs == \A k \in UintKinds : Conv(k, T)[2] # "0" => Conv("int64", T)[2] = Conv(k, T)[2]
Empty == txt = <<>> => \A k \in Supported : Conv(k, T) = ZeroOf(k)
Lists == \A i \in 1..Len(Pieces(txt)) : Pieces(txt)[i][2] # ""
=============================================================================
