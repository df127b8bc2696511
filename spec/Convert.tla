------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* How a text becomes a value of a declared type.  A text is               *)
(*    [s |-> the string, c |-> the sequence of its characters]             *)
(* a value is a tagged tuple:                                              *)
(*    <<"b","true">> bool  <<"n","-12">> number (canonical decimal text)   *)
(*    <<"s","...">> string / bytes   <<"t","days:secs">> time              *)
(*    <<"p",<<v>>>> pointer, <<"p",<<>>>> nil   <<"l",<<...>>>> list       *)
(*    <<"m",{<<k,v>>...}>> map   <<"r",<<...>>>> struct fields in order    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, StrLib

RECURSIVE Cat(_)
Cat(c) == IF c = <<>> THEN "" ELSE Head(c) \o Cat(Tail(c))

DigVal == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@
          "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
IsDig(x) == x \in DOMAIN DigVal
AllDig(c) == \A i \in 1..Len(c) : IsDig(c[i])
RECURSIVE StripZeros(_)
StripZeros(c) == IF c # <<>> /\ c[1] = "0" THEN StripZeros(Tail(c)) ELSE c
RECURSIVE StripTail(_)
StripTail(c) == IF c # <<>> /\ c[Len(c)] = "0" THEN StripTail(SubSeq(c, 1, Len(c) - 1)) ELSE c

(* a <= b for digit sequences without leading zeros *)
RECURSIVE LexLE(_, _)
LexLE(a, b) == IF a = <<>> THEN TRUE
               ELSE IF a[1] = b[1] THEN LexLE(Tail(a), Tail(b))
               ELSE DigVal[a[1]] < DigVal[b[1]]
DigLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b))

\* largest magnitude of a non-negative / a negative value, per kind
D(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
MaxPos == "int8" :> D("127") @@ "int16" :> D("32767") @@ "int32" :> D("2147483647") @@
          "int64" :> D("9223372036854775807") @@ "int" :> D("9223372036854775807") @@
          "uint8" :> D("255") @@ "uint16" :> D("65535") @@ "uint32" :> D("4294967295") @@
          "uint64" :> D("18446744073709551615") @@ "uint" :> D("18446744073709551615")
MaxNeg == "int8" :> D("128") @@ "int16" :> D("32768") @@ "int32" :> D("2147483648") @@
          "int64" :> D("9223372036854775808") @@ "int" :> D("9223372036854775808")
IntKinds == DOMAIN MaxNeg
UintKinds == DOMAIN MaxPos \ IntKinds

Bad == [ok |-> FALSE, v |-> "0"]
Good(v) == [ok |-> TRUE, v |-> v]

Integer(k, c) ==
  LET signed == k \in IntKinds
      sgn  == signed /\ c # <<>> /\ c[1] \in {"+", "-"}
      neg  == sgn /\ c[1] = "-"
      body == IF sgn THEN Tail(c) ELSE c
      d    == StripZeros(body)
  IN  IF body = <<>> \/ ~AllDig(body) THEN Bad
      ELSE IF d = <<>> THEN Good("0")
      ELSE IF ~DigLE(d, IF neg THEN MaxNeg[k] ELSE MaxPos[k]) THEN Bad
      ELSE Good((IF neg THEN "-" ELSE "") \o Cat(d))

RECURSIVE Small(_, _)
Small(c, acc) == IF c = <<>> THEN acc
                 ELSE Small(Tail(c), IF acc > 100000 THEN acc ELSE acc * 10 + DigVal[c[1]])
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
At(c, S) == IF \E i \in 1..Len(c) : c[i] \in S
            THEN CHOOSE i \in 1..Len(c) : c[i] \in S /\ \A j \in 1..(i - 1) : c[j] \notin S
            ELSE 0

(* decimal floating point; texts carry no more digits than the type keeps *)
Float(k, c) ==
  LET sgn  == c # <<>> /\ c[1] \in {"+", "-"}
      neg  == sgn /\ c[1] = "-"
      u    == IF sgn THEN Tail(c) ELSE c
      word == ToLower(Cat(u))
      e    == At(u, {"e", "E"})
      man  == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      ex0  == IF e = 0 THEN <<>> ELSE SubSeq(u, e + 1, Len(u))
      exs  == ex0 # <<>> /\ ex0[1] \in {"+", "-"}
      exd  == IF exs THEN Tail(ex0) ELSE ex0
      dot  == At(man, {"."})
      ip   == IF dot = 0 THEN man ELSE SubSeq(man, 1, dot - 1)
      fp   == IF dot = 0 THEN <<>> ELSE SubSeq(man, dot + 1, Len(man))
      okm  == AllDig(ip) /\ AllDig(fp) /\ ip \o fp # <<>> /\ (e = 0 \/ (exd # <<>> /\ AllDig(exd)))
      x    == IF e = 0 THEN 0 ELSE IF exs /\ ex0[1] = "-" THEN 0 - Small(exd, 0) ELSE Small(exd, 0)
      lead == StripZeros(ip \o fp)
      dg   == StripTail(lead)
      P    == Len(ip) + x - (Len(ip \o fp) - Len(lead))
      top  == IF k = "float32" THEN 39 ELSE 309
      low  == IF k = "float32" THEN 0 - 46 ELSE 0 - 325
      sg   == IF neg THEN "-" ELSE ""
  IN  IF word \in {"inf", "infinity"} THEN Good(IF neg THEN "-Inf" ELSE "+Inf")
      ELSE IF word = "nan" /\ ~sgn THEN Good("NaN")
      ELSE IF ~okm THEN Bad
      ELSE IF dg = <<>> \/ P < low THEN Good(sg \o "0")
      ELSE IF P > top THEN Bad
      ELSE Good(sg \o (IF P <= 0 THEN "0." \o Zeros(0 - P) \o Cat(dg)
                       ELSE IF P >= Len(dg) THEN Cat(dg) \o Zeros(P - Len(dg))
                       ELSE Cat(SubSeq(dg, 1, P)) \o "." \o Cat(SubSeq(dg, P + 1, Len(dg)))))

TrueWords == {"1", "t", "T", "TRUE", "true", "True", "on"}
FloatKinds == {"float32", "float64"}
Numeric == IntKinds \cup UintKinds \cup FloatKinds

RECURSIVE TrimL(_)
TrimL(c) == IF c # <<>> /\ c[1] \in Space THEN TrimL(Tail(c)) ELSE c
RECURSIVE TrimR(_)
TrimR(c) == IF c # <<>> /\ c[Len(c)] \in Space THEN TrimR(SubSeq(c, 1, Len(c) - 1)) ELSE c
Trim(c) == TrimR(TrimL(c))

(* pieces between commas, trimmed, blanks dropped *)
RECURSIVE Pieces(_)
Pieces(c) ==
  LET i == At(c, {","})
      h == Trim(IF i = 0 THEN c ELSE SubSeq(c, 1, i - 1))
      r == IF i = 0 THEN <<>> ELSE Pieces(SubSeq(c, i + 1, Len(c)))
  IN  (IF h = <<>> THEN <<>> ELSE <<<<"s", Cat(h)>>>>) \o r

Num(k, c) == IF k \in FloatKinds THEN Float(k, c).v ELSE Integer(k, c).v

ZeroOf(k) ==
  CASE k = "bool" -> <<"b", "false">>
    [] k \in Numeric -> <<"n", "0">>
    [] k = "string" \/ k = "bytes" -> <<"s", "">>
    [] k = "strs" -> <<"l", <<>>>>
    [] OTHER -> <<"p", <<>>>>

(* configuration values and positional action arguments *)
Conv(k, t) ==
  CASE k = "bool" -> <<"b", IF t.s \in TrueWords THEN "true" ELSE "false">>
    [] k \in Numeric -> <<"n", Num(k, t.c)>>
    [] k = "string" \/ k = "bytes" -> <<"s", t.s>>
    [] k = "strs" -> <<"l", Pieces(t.c)>>
    [] OTHER -> ZeroOf(k)

(* observed values: JSON has lists where the specification has sets *)
RECURSIVE Canon(_)
Canon(v) ==
  CASE v[1] \in {"l", "r", "p"} -> <<v[1], [i \in 1..Len(v[2]) |-> Canon(v[2][i])]>>
    [] v[1] = "m" -> <<"m", { <<Canon(v[2][i][1]), Canon(v[2][i][2])>> : i \in 1..Len(v[2]) }>>
    [] OTHER -> v

------------------------------------------------------------------------------
(* C06: the arguments of an action: path parameters in path order *)
Args(kinds, params) ==
  [i \in 1..Len(kinds) |-> IF i <= Len(params) THEN Conv(kinds[i], params[i]) ELSE ZeroOf(kinds[i])]

------------------------------------------------------------------------------
(* C17: one bound variable: kind, whether behind a pointer, value before *)
Supported == Numeric \cup {"bool", "string", "bytes", "strs"}
BoundTo(v, text) ==
  IF text.s = "" \/ v.kind \notin Supported THEN Canon(v.pre)
  ELSE IF v.ptr THEN <<"p", <<Conv(v.kind, text)>>>>
  ELSE Conv(v.kind, text)

(* the text configured for a key; absent keys are empty *)
Look(data, key) ==
  IF \E i \in 1..Len(data) : data[i].k = key
  THEN data[CHOOSE i \in 1..Len(data) : data[i].k = key].v
  ELSE [s |-> "", c |-> <<>>]

(* a struct is a sequence of fields:                                        *)
(*   [f |-> "var", tag, kind, ptr, pre]       a variable                    *)
(*   [f |-> "sec", tag, fs]                   a nested section              *)
(*   [f |-> "emb", fs]                        an embedded struct            *)
RECURSIVE Decoded(_, _, _)
Decoded(data, sec, fs) ==
  [i \in 1..Len(fs) |->
     LET x == fs[i]
         on == x.tag # "" /\ x.tag # "-"
     IN  CASE x.f = "emb" -> <<"r", Decoded(data, sec, x.fs)>>
           [] x.f = "sec" -> IF on THEN <<"r", Decoded(data, x.tag, x.fs)>>
                             ELSE <<"r", [j \in 1..Len(x.fs) |-> Canon(x.fs[j].pre)]>>
           [] OTHER -> IF on THEN BoundTo(x, Look(data, (IF sec = "" THEN "" ELSE sec \o "::") \o x.tag))
                       ELSE Canon(x.pre)]

------------------------------------------------------------------------------
(* C19: request parameters.  vals: sequence of [p |-> path, vs |-> texts];  *)
(* a path is a sequence of segments [t, s, i]: t = "n" name, ".": field,    *)
(* "i": index i, "h": an unreasonable index, "e": empty brackets,           *)
(* "k": map key s.                                                          *)
BoolWord(c) == ToLower(Cat(Trim(c))) \in {"true", "on", "1"}

Days == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DayNo(y, m, d) ==    \* days since 1970-01-01
  LET z == y - 1
  IN  365 * y + (z \div 4) - (z \div 100) + (z \div 400) + Days[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 719528

N2(c, i) == IF i + 1 <= Len(c) /\ IsDig(c[i]) /\ IsDig(c[i + 1]) THEN DigVal[c[i]] * 10 + DigVal[c[i + 1]] ELSE 0 - 1
N4(c, i) == IF N2(c, i) < 0 \/ N2(c, i + 2) < 0 THEN 0 - 1 ELSE N2(c, i) * 100 + N2(c, i + 2)
Is(c, i, x) == i <= Len(c) /\ c[i] = x
DateOK(c) ==
  LET y == N4(c, 1)
      m == N2(c, 6)
      d == N2(c, 9)
  IN  y >= 0 /\ Is(c, 5, "-") /\ m \in 1..12 /\ Is(c, 8, "-") /\ d >= 1 /\ d <= MonthLen(y, m)
ClockOK(c, secs) ==
  /\ N2(c, 12) \in 0..23 /\ Is(c, 14, ":") /\ N2(c, 15) \in 0..59
  /\ secs => Is(c, 17, ":") /\ N2(c, 18) \in 0..59
OffOK(c) ==          \* after the seconds of an RFC 3339 text
  \/ Len(c) = 20 /\ Is(c, 20, "Z")
  \/ Len(c) = 25 /\ (Is(c, 20, "+") \/ Is(c, 20, "-")) /\ N2(c, 21) \in 0..24 /\ Is(c, 23, ":") /\ N2(c, 24) \in 0..60
Instant(day, sec) == <<"t", ToString(day + (sec \div 86400)) \o ":" \o ToString(sec % 86400)>>
\* east of Greenwich in seconds, of the local time
LocalOffset == 12600
ZeroTime == <<"t", "zero">>
TimeOf(t) ==
  LET c == t.c
      day == DayNo(N4(c, 1), N2(c, 6), N2(c, 9))
      hm  == N2(c, 12) * 3600 + N2(c, 15) * 60
      off == (N2(c, 21) * 3600 + N2(c, 24) * 60) * (IF Is(c, 20, "-") THEN 0 - 1 ELSE 1)
  IN  IF Len(c) = 10 /\ DateOK(c) THEN Instant(day, 0 - LocalOffset)
      ELSE IF Len(c) = 16 /\ DateOK(c) /\ Is(c, 11, " ") /\ ClockOK(c, FALSE) THEN Instant(day, hm - LocalOffset)
      ELSE IF Len(c) = 19 /\ DateOK(c) /\ Is(c, 11, " ") /\ ClockOK(c, TRUE) THEN Instant(day, hm + N2(c, 18) - LocalOffset)
      ELSE IF Len(c) >= 20 /\ DateOK(c) /\ Is(c, 11, "T") /\ ClockOK(c, TRUE) /\ OffOK(c)
        THEN Instant(day, hm + N2(c, 18) - (IF Len(c) = 20 THEN 0 ELSE off))
      ELSE IF Integer("int64", c).ok     \* seconds since the epoch (texts of up to 14 digits)
        THEN LET d == StripZeros(IF c[1] \in {"+", "-"} THEN Tail(c) ELSE c)
                 RECURSIVE Div(_, _, _)
                 Div(q, days, secs) ==
                   IF q = <<>> THEN <<days, secs>>
                   ELSE LET n == secs * 10 + DigVal[q[1]] IN Div(Tail(q), days * 10 + (n \div 86400), n % 86400)
                 n == Div(d, 0, 0)
             IN  IF c[1] # "-" THEN Instant(n[1], n[2])
                 ELSE IF n[2] = 0 THEN Instant(0 - n[1], 0) ELSE Instant(0 - n[1] - 1, 86400 - n[2])
      ELSE ZeroTime

RECURSIVE PZero(_)
PZero(ty) ==
  CASE ty.k \in {"list", "strs"} -> <<"l", <<>>>>
    [] ty.k = "map" -> <<"m", {}>>
    [] ty.k = "ptr" -> <<"p", <<>>>>
    [] ty.k = "time" -> ZeroTime
    [] ty.k = "struct" -> <<"r", [i \in 1..Len(ty.fs) |-> PZero(ty.fs[i].t)]>>
    [] OTHER -> ZeroOf(ty.k)

(* a single text bound to a type that takes one *)
RECURSIVE Direct(_, _)
Direct(ty, t) ==
  CASE ty.k = "bool" -> <<"b", IF BoolWord(t.c) THEN "true" ELSE "false">>
    [] ty.k \in Numeric -> <<"n", Num(ty.k, t.c)>>
    [] ty.k = "string" -> <<"s", t.s>>
    [] ty.k = "time" -> TimeOf(t)
    [] ty.k = "ptr" -> <<"p", <<Direct(ty.e, t)>>>>
    [] ty.k = "list" -> <<"l", <<Direct(ty.e, t)>>>>
    [] OTHER -> PZero(ty)

Here(vals, path) == IF \E i \in 1..Len(vals) : vals[i].p = path
                    THEN vals[CHOOSE i \in 1..Len(vals) : vals[i].p = path].vs ELSE <<>>
Below(vals, path) ==     \* the segments which directly follow path
  { vals[i].p[Len(path) + 1] : i \in { j \in 1..Len(vals) : Len(vals[j].p) > Len(path) /\ SubSeq(vals[j].p, 1, Len(path)) = path } }
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE PBind(_, _, _)
PBind(vals, path, ty) ==
  LET vs == Here(vals, path)
  IN  CASE ty.k = "ptr" -> IF vs = <<>> THEN <<"p", <<>>>> ELSE <<"p", <<PBind(vals, path, ty.e)>>>>
        [] ty.k = "list" ->
             LET segs == Below(vals, path)
                 idx  == { s \in segs : s.t = "i" }
                 top  == IF idx = {} THEN 0 - 1 ELSE SetMax({ s.i : s \in idx })
                 el   == [n \in 1..(top + 1) |->
                            LET sg == [t |-> "i", s |-> "", i |-> n - 1]
                            IN  IF sg \in idx THEN PBind(vals, Append(path, sg), ty.e) ELSE PZero(ty.e)]
                 fr   == vs \o Here(vals, Append(path, [t |-> "e", s |-> "", i |-> 0]))
             IN  <<"l", el \o [n \in 1..Len(fr) |-> Direct(ty.e, fr[n])]>>
        [] ty.k = "struct" ->
             <<"r", [i \in 1..Len(ty.fs) |->
                       PBind(vals, Append(path, [t |-> ".", s |-> ty.fs[i].n, i |-> 0]), ty.fs[i].t)]>>
        [] ty.k = "map" ->
             IF vs # <<>> /\ vs[1].s # ""
             THEN <<"m", { <<Direct(ty.key, vs[1].j[n].k),
                                IF vs[1].j[n].null THEN PZero(ty.e) ELSE Direct(ty.e, vs[1].j[n].v)>> : n \in 1..Len(vs[1].j) }>>
             ELSE <<"m", { LET q == Here(vals, Append(path, sg)) IN <<Direct(ty.key, sg.x), Direct(ty.e, q[1])>> :
                             sg \in { s \in Below(vals, path) : s.t = "k" /\ Here(vals, Append(path, s)) # <<>> } }>>
        [] OTHER -> IF vs = <<>> THEN PZero(ty) ELSE Direct(ty, vs[1])

(* the fields of a struct, each bound to the parameter of its name:         *)
(*   [f |-> "var", name, t, skip, pre] / [f |-> "emb", ptr, fs, set]        *)
RECURSIVE PPresent(_, _), PStruct(_, _)
PPresent(vals, fs) ==
  \E i \in 1..Len(fs) :
     IF fs[i].f = "emb" THEN PPresent(vals, fs[i].fs)
     ELSE ~fs[i].skip /\ Here(vals, <<[t |-> "n", s |-> fs[i].name, i |-> 0]>>) # <<>>
PStruct(vals, fs) ==
  [i \in 1..Len(fs) |->
     LET x == fs[i]
     IN  IF x.f = "emb"
         THEN IF ~x.ptr THEN <<"r", PStruct(vals, x.fs)>>
              ELSE IF x.set \/ PPresent(vals, x.fs) THEN <<"p", <<<<"r", PStruct(vals, x.fs)>>>>>>
              ELSE <<"p", <<>>>>
         ELSE IF x.skip THEN Canon(x.pre)
         ELSE PBind(vals, <<[t |-> "n", s |-> x.name, i |-> 0]>>, x.t)]
=============================================================================
