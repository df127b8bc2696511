------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* C18: the parameter views of a request.  query, route and body are       *)
(* sequences of pairs <<name, value>> in the order sent; files a sequence  *)
(* of [k, name, data].                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Names(ps) == { ps[i][1] : i \in 1..Len(ps) }
RECURSIVE ValuesOf(_, _)
ValuesOf(ps, k) ==
  IF ps = <<>> THEN <<>>
  ELSE (IF Head(ps)[1] = k THEN <<Head(ps)[2]>> ELSE <<>>) \o ValuesOf(Tail(ps), k)

View(ps) == { <<k, ValuesOf(ps, k)>> : k \in Names(ps) }

Unified(q, r, b) == View(q \o r \o b)

RECURSIVE FilesOf(_, _)
FilesOf(fs, k) ==
  IF fs = <<>> THEN <<>>
  ELSE (IF Head(fs).k = k THEN <<<<Head(fs).name, Head(fs).data>>>> ELSE <<>>) \o FilesOf(Tail(fs), k)
Files(fs) == { <<k, FilesOf(fs, k)>> : k \in { fs[i].k : i \in 1..Len(fs) } }

AsSet(l) == { <<l[i][1], l[i][2]>> : i \in 1..Len(l) }
=============================================================================
