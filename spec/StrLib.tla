------------------------------- MODULE StrLib -------------------------------
(* Character-level operations on strings, which TLC treats as sequences.   *)
EXTENDS Naturals, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
DropFirst(s, n) == SubSeq(s, n + 1, Len(s))
DropLast(s, n)  == SubSeq(s, 1, Len(s) - n)

(* first position >= i at which p occurs in s; 0 when there is none *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
  ELSE IndexFrom(s, p, i + 1)
Index(s, p) == IndexFrom(s, p, 1)
Contains(s, p) == Index(s, p) # 0

(* last position at which p occurs in s; 0 when there is none *)
RECURSIVE LastIndexFrom(_, _, _)
LastIndexFrom(s, p, i) ==
  IF i < 1 THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
  ELSE LastIndexFrom(s, p, i - 1)
LastIndex(s, p) == IF Len(p) > Len(s) THEN 0 ELSE LastIndexFrom(s, p, Len(s) - Len(p) + 1)

(* pieces of s between occurrences of the (non-empty) separator *)
RECURSIVE Split(_, _)
Split(s, sep) ==
  LET i == Index(s, sep)
  IN  IF i = 0 THEN <<s>>
      ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + Len(sep), Len(s)), sep)

RECURSIVE Join(_, _)
Join(ss, sep) ==
  IF ss = <<>> THEN ""
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o Join(Tail(ss), sep)

Space == {" ", "\t", "\n", "\r", "\f"}
RECURSIVE TrimLeftSet(_, _)
TrimLeftSet(s, C) == IF s # "" /\ Ch(s, 1) \in C THEN TrimLeftSet(DropFirst(s, 1), C) ELSE s
RECURSIVE TrimRightSet(_, _)
TrimRightSet(s, C) == IF s # "" /\ Ch(s, Len(s)) \in C THEN TrimRightSet(DropLast(s, 1), C) ELSE s
TrimSpace(s) == TrimRightSet(TrimLeftSet(s, Space), Space)

UpTab   == "a" :> "A" @@ "b" :> "B" @@ "c" :> "C" @@ "d" :> "D" @@ "e" :> "E" @@ "f" :> "F" @@
            "g" :> "G" @@ "h" :> "H" @@ "i" :> "I" @@ "j" :> "J" @@ "k" :> "K" @@ "l" :> "L" @@
            "m" :> "M" @@ "n" :> "N" @@ "o" :> "O" @@ "p" :> "P" @@ "q" :> "Q" @@ "r" :> "R" @@
            "s" :> "S" @@ "t" :> "T" @@ "u" :> "U" @@ "v" :> "V" @@ "w" :> "W" @@ "x" :> "X" @@
            "y" :> "Y" @@ "z" :> "Z"
LowTab  == "A" :> "a" @@ "B" :> "b" @@ "C" :> "c" @@ "D" :> "d" @@ "E" :> "e" @@ "F" :> "f" @@
            "G" :> "g" @@ "H" :> "h" @@ "I" :> "i" @@ "J" :> "j" @@ "K" :> "k" @@ "L" :> "l" @@
            "M" :> "m" @@ "N" :> "n" @@ "O" :> "o" @@ "P" :> "p" @@ "Q" :> "q" @@ "R" :> "r" @@
            "S" :> "s" @@ "T" :> "t" @@ "U" :> "u" @@ "V" :> "v" @@ "W" :> "w" @@ "X" :> "x" @@
            "Y" :> "y" @@ "Z" :> "z"
UpCh(c)  == IF c \in DOMAIN UpTab THEN UpTab[c] ELSE c
LowCh(c) == IF c \in DOMAIN LowTab THEN LowTab[c] ELSE c
RECURSIVE ToUpper(_)
ToUpper(s) == IF s = "" THEN "" ELSE UpCh(Ch(s, 1)) \o ToUpper(DropFirst(s, 1))
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE LowCh(Ch(s, 1)) \o ToLower(DropFirst(s, 1))

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllIn(s, C) == \A i \in 1..Len(s) : Ch(s, i) \in C

(* Sequence helpers *)
RECURSIVE SelectNot(_, _)
SelectNot(q, S) ==                                   \* q without the elements of S
  IF q = <<>> THEN <<>>
  ELSE IF Head(q) \in S THEN SelectNot(Tail(q), S)
  ELSE <<Head(q)>> \o SelectNot(Tail(q), S)
Ran(q) == { q[i] : i \in 1..Len(q) }
RECURSIVE AppendNew(_, _)
AppendNew(q, r) ==                                   \* q then the elements of r not there yet
  IF r = <<>> THEN q
  ELSE AppendNew(IF Head(r) \in Ran(q) THEN q ELSE Append(q, Head(r)), Tail(r))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
=============================================================================
