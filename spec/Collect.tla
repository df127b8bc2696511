------------------------------ MODULE Collect ------------------------------
(* Session collections (C30): every loop started collects at once and then  *)
(* again each time its interval has passed, whether the last run failed or   *)
(* not.  An interval below a minute, or none (-1), means an hour.            *)
EXTENDS Integers, Sequences
Every(k) == IF k < 60 THEN 3600 ELSE k
Runs(loop, now) == 1 + (now - loop.at) \div loop.d
RECURSIVE Total(_, _)
Total(loops, now) == IF loops = <<>> THEN 0 ELSE Runs(Head(loops), now) + Total(Tail(loops), now)
Begin(s, k) == [s EXCEPT !.loops = Append(@, [at |-> s.now, d |-> Every(k)])]
Pass(s, d) == [s EXCEPT !.now = @ + d]
Count(s) == Total(s.loops, s.now)
=============================================================================
