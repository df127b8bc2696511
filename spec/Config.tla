------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* C16: what an INI text denotes, how a key is looked up, and the          *)
(* precedence of the classic loader.  A file is a sequence of texts        *)
(* (lines); a loaded file is [ok, asg, secs]: the assignments              *)
(* [sec, k, v] in order and the sections which exist.                      *)
(***************************************************************************)
EXTENDS Convert

Sub(c, i, j) == SubSeq(c, i, j)
RECURSIVE FindSeq(_, _, _)       \* first place >= i of the sequence q in c; 0: none
FindSeq(c, q, i) == IF i + Len(q) - 1 > Len(c) THEN 0
                    ELSE IF Sub(c, i, i + Len(q) - 1) = q THEN i ELSE FindSeq(c, q, i + 1)
RECURSIVE FindLast(_, _, _)
FindLast(c, q, i) == IF i < 1 THEN 0
                     ELSE IF i + Len(q) - 1 <= Len(c) /\ Sub(c, i, i + Len(q) - 1) = q THEN i
                     ELSE FindLast(c, q, i - 1)
AtFrom(c, S, i) == LET j == At(Sub(c, i, Len(c)), S) IN IF j = 0 THEN 0 ELSE i + j - 1

QQQ == <<"\"", "\"", "\"">>
DefaultSection == "default"

(* value text: between the quotes when it begins with one that is closed   *)
ValueOf(c) ==
  LET q == IF Len(c) >= 2 /\ c[1] = "`" THEN <<"`">>
           ELSE IF Len(c) >= 6 /\ Sub(c, 1, 3) = QQQ THEN QQQ ELSE <<>>
      p == FindLast(c, q, Len(c))
  IN  IF q = <<>> THEN [ok |-> TRUE, v |-> Cat(c)]
      ELSE IF p <= Len(q) THEN [ok |-> FALSE, v |-> ""]
      ELSE [ok |-> TRUE, v |-> Cat(Sub(c, Len(q) + 1, p - 1))]

(* one line: [t: "skip" | "sec" | "kv" | "bad", k, v] *)
Line(raw) ==
  LET c == Trim(raw)
      n == Len(c)
      bad == [t |-> "bad", k |-> "", v |-> ""]
      q == IF n = 0 THEN <<>>
           ELSE IF c[1] = "\"" THEN (IF n >= 6 /\ Sub(c, 1, 3) = QQQ THEN QQQ ELSE <<"\"">>)
           ELSE IF c[1] = "`" THEN <<"`">> ELSE <<>>
      close == IF q = <<>> THEN 0 ELSE FindSeq(c, q, Len(q) + 1)
      sep == IF q = <<>> THEN At(c, {"=", ":"}) ELSE AtFrom(c, {"=", ":"}, close)
      val == ValueOf(Trim(Sub(c, sep + 1, n)))
  IN  IF n = 0 \/ c[1] \in {"#", ";"} THEN [t |-> "skip", k |-> "", v |-> ""]
      ELSE IF c[1] = "[" /\ c[n] = "]"
        THEN LET s == Cat(Trim(Sub(c, 2, n - 1)))
             IN  IF s = "" THEN bad ELSE [t |-> "sec", k |-> s, v |-> ""]
      ELSE IF q # <<>> /\ close = 0 THEN bad
      ELSE IF sep <= 1 THEN bad
      ELSE IF ~val.ok THEN bad
      ELSE [t |-> "kv", v |-> val.v,
            k |-> IF q = <<>> THEN Cat(Trim(Sub(c, 1, sep - 1))) ELSE Cat(Sub(c, Len(q) + 1, close - 1))]

RECURSIVE LoadFrom(_, _, _, _)
LoadFrom(lines, sec, count, acc) ==
  IF lines = <<>> THEN acc
  ELSE LET x == Line(Head(lines).c)
       IN  CASE x.t = "skip" -> LoadFrom(Tail(lines), sec, count, acc)
             [] x.t = "bad" -> [ok |-> FALSE, asg |-> <<>>, secs |-> {}]
             [] x.t = "sec" -> LoadFrom(Tail(lines), x.k, 1, [acc EXCEPT !.secs = @ \cup {x.k}])
             [] OTHER -> LoadFrom(Tail(lines), sec, IF x.k = "-" THEN count + 1 ELSE count,
                           [acc EXCEPT !.secs = @ \cup {sec},
                                       !.asg = IF x.k = "" THEN @
                                               ELSE Append(@, [sec |-> sec, v |-> x.v,
                                                               k |-> IF x.k = "-" THEN "#" \o ToString(count) ELSE x.k])])
Load(lines) == LoadFrom(lines, DefaultSection, 1, [ok |-> TRUE, asg |-> <<>>, secs |-> {}])

(* last assignment wins *)
RECURSIVE LastOf(_, _, _)
LastOf(asg, sec, k) ==
  IF asg = <<>> THEN ""
  ELSE LET x == asg[Len(asg)] IN IF x.sec = sec /\ x.k = k THEN x.v ELSE LastOf(SubSeq(asg, 1, Len(asg) - 1), sec, k)

EnvChar(x) == IF x \in {".", "-", ":", " "} THEN "_" ELSE UpCh(x)
EnvKey(sec, key) == Cat([i \in 1..Len(sec) |-> EnvChar(sec[i])]) \o (IF sec = <<>> THEN "" ELSE "_")
                    \o Cat([i \in 1..Len(key) |-> EnvChar(key[i])])
Split2(c) == LET p == FindSeq(c, <<":", ":">>, 1)
             IN  IF p = 0 THEN [sec |-> <<>>, key |-> c] ELSE [sec |-> Sub(c, 1, p - 1), key |-> Sub(c, p + 2, Len(c))]

EnvOf(env, k) == IF \E i \in 1..Len(env) : env[i].k = k
                 THEN env[CHOOSE i \in 1..Len(env) : env[i].k = k].v ELSE ""

(* chain: loaded files, nearest first *)
RECURSIVE InChain(_, _, _)
InChain(chain, sec, key) ==
  IF chain = <<>> THEN ""
  ELSE LET v == LastOf(Head(chain).asg, sec, key) IN IF v # "" THEN v ELSE InChain(Tail(chain), sec, key)

Find(chain, env, c) ==
  LET n == Split2(c)
      e == EnvOf(env, EnvKey(n.sec, n.key))
  IN  IF n.key = <<>> THEN ""
      ELSE IF e # "" THEN e
      ELSE InChain(chain, IF n.sec = <<>> THEN DefaultSection ELSE Cat(n.sec), Cat(n.key))

(* a section as a set of pairs *)
Listed(f, sec) == { <<f.asg[i].k, LastOf(f.asg, sec, f.asg[i].k)>> : i \in { j \in 1..Len(f.asg) : f.asg[j].sec = sec } }

------------------------------------------------------------------------------
(* The classic loader: files [kind, mode, dir, f] (f a loaded file), kind   *)
(* 1 default, 2 app, 3 override; dir 1 executable, 2 working, 3 listed;     *)
(* explicit files come last.  Later ones win.                               *)
Before(a, b) == \/ a.kind < b.kind
                \/ a.kind = b.kind /\ a.dir < b.dir
                \/ a.kind = b.kind /\ a.dir = b.dir /\ ~a.mode /\ b.mode
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(y, x)
                   IN  <<m>> \o Ordered(S \ {m})       \* the strongest first
Classic(std, extra) ==
  [i \in 1..Len(extra) |-> extra[Len(extra) + 1 - i]] \o
  LET o == Ordered(std) IN [i \in 1..Len(o) |-> o[i].f]
=============================================================================
