----------------------------- MODULE TextTrace -----------------------------
(* Conversions between texts and values on their own (C32), on top of the    *)
(* definition of what a text denotes (Convert).                              *)
EXTENDS Convert, TraceLib
FalseWords == {"0", "f", "F", "FALSE", "false", "False"}
Parse(k, t) ==
  CASE k = "bool" -> IF t.s \in TrueWords THEN Good("true") ELSE IF t.s \in FalseWords THEN Good("false") ELSE Bad
    [] k \in FloatKinds -> Float(k, t.c)
    [] k \in IntKinds \cup UintKinds -> Integer(k, t.c)
    [] k = "string" -> Good(t.s)
RECURSIVE Items(_)   \* the items of comma-separated texts, without blank ones
Items(q) == IF q = <<>> THEN <<>>
            ELSE LET p == Split(Head(q), ",")
                     t == [i \in 1..Len(p) |-> TrimSpace(p[i])]
                 IN  SelectNot(t, {""}) \o Items(Tail(q))
(* decimal digits times b plus d, and plus one *)
RECURSIVE MulAdd(_, _, _)
MulAdd(c, b, d) ==
  IF c = <<>> THEN IF d = 0 THEN <<>> ELSE MulAdd(<<>>, b, d \div 10) \o <<d % 10>>
  ELSE LET n == c[Len(c)] * b + d IN MulAdd(SubSeq(c, 1, Len(c) - 1), b, n \div 10) \o <<n % 10>>
(* the digits of base b, most significant first, as decimal digits *)
RECURSIVE FromBase(_, _)
FromBase(ds, b) == IF ds = <<>> THEN <<>> ELSE MulAdd(FromBase(SubSeq(ds, 1, Len(ds) - 1), b), b, ds[Len(ds)])
Decimal(q) == IF q = <<>> THEN <<0>> ELSE q
(* an exact decimal number, digits ip before the point and fp after it,     *)
(* rounded to n digits after the point, halves to the even neighbour        *)
Rounded(ip, fp, n) ==
  LET f == IF Len(fp) >= n THEN fp ELSE fp \o [i \in 1..(n - Len(fp)) |-> 0]
      keep == ip \o SubSeq(f, 1, n)
      rest == SubSeq(f, n + 1, Len(f))
      over == rest # <<>> /\ (rest[1] > 5 \/ (rest[1] = 5 /\ ((\E i \in 2..Len(rest) : rest[i] # 0) \/ keep[Len(keep)] % 2 = 1)))
      all  == IF over THEN MulAdd(keep, 1, 1) ELSE keep
  IN  [ip |-> SubSeq(all, 1, Len(all) - n), fp |-> SubSeq(all, Len(all) - n + 1, Len(all))]
GStart(cfg) == 0
GStep(s, e) ==
  LET in == e.in  o == e.obs
      R(ok, w) == [ok |-> ok, st |-> s, want |-> w]
  IN
  (* a text, or a value by way of its text, as a kind *)
  CASE e.op = "conv" -> LET w == Parse(in.k, in.t) IN R(o.ok = w.ok /\ (w.ok => o.v = w.v), w)
    (* a value of the kind asked for is that value *)
    [] e.op = "same" -> R(o.ok /\ o.v = in.v, in.v)
    [] e.op = "none" -> R(~o.ok, "error")
    (* the text of a value denotes that value *)
    [] e.op = "text" -> LET w == Parse(in.k, o.t) IN R(w.ok /\ w.v = in.v, in.v)
    (* an integer in another base, a number with so many decimals *)
    [] e.op = "based" -> R(/\ o.neg = in.neg /\ Decimal(FromBase(o.ds, in.b)) = in.d
                           /\ (Len(o.ds) > 1 => o.ds[1] # 0) /\ \A i \in 1..Len(o.ds) : o.ds[i] < in.b, in)
    [] e.op = "rounded" -> LET w == Rounded(in.ip, in.fp, in.n)
                           IN  R(o.neg = in.neg /\ o.ip = w.ip /\ o.fp = w.fp, w)
    [] e.op = "int64" -> LET w == Integer("int64", in.c) IN R(o.ok = w.ok /\ (w.ok => o.v = w.v), w)
    (* numbers written in an alphabet and read again; random texts *)
    [] e.op = "number" -> R(o.back = in.n /\ o.own, in.n)
    [] e.op = "random" -> R(o.len = in.n /\ o.own /\ (in.n >= 64 /\ in.letters > 1 => o.differ), in.n)
    (* pieces between delimiters *)
    [] e.op = "list" -> LET p == Split(in.s, in.d)
                            w == [i \in 1..Len(p) |-> TrimSpace(p[i])]
                        IN  R(o.l = w, w)
    (* a list flag: texts set one after the other, then without repetitions *)
    [] e.op = "flag" -> LET w == Items(in.sets)
                            u == AppendNew(<<>>, w)
                        IN  R(o.l = w /\ o.s = Join(w, ",") /\ o.u = u, w)
    (* lists, bytes and nothing are kept as they are, and only they *)
    [] e.op = "whole" -> R(/\ o.same
                           /\ o.nil = (in.k = "nil")
                           /\ o.list = (IF in.k = "list" THEN in.l ELSE <<>>)
                           /\ o.bytes = (IF in.k = "bytes" THEN in.l[1] ELSE ""), in.k)
=============================================================================
