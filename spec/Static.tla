------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* Static serving (C24).  Paths are sequences of the texts between slashes *)
(* ("/a/" is <<"", "a", "">>).  A tree is [files, dirs]: files maps the    *)
(* clean paths ("/a/b") of files to their contents' names, dirs is a set   *)
(* of clean paths; "/" is the directory served.                            *)
(* A filter is [prefix (split as given), any, try, skip].                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RECURSIVE CleanR(_, _)
CleanR(ps, stack) ==
  IF ps = <<>> THEN stack
  ELSE CleanR(Tail(ps),
              CASE Head(ps) \in {"", "."} -> stack
                [] Head(ps) = ".." -> IF stack = <<>> THEN <<>> ELSE SubSeq(stack, 1, Len(stack) - 1)
                [] OTHER -> Append(stack, Head(ps)))
Clean(ps) == CleanR(ps, <<>>)

RECURSIVE JoinR(_)
JoinR(ps) == IF ps = <<>> THEN "" ELSE "/" \o Head(ps) \o JoinR(Tail(ps))
Name(ps) == IF ps = <<>> THEN "/" ELSE JoinR(ps)      \* of a clean path
Text(ps) == LET t == JoinR(ps) IN SubSeq(t, 2, Len(t))   \* of any path
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

RECURSIVE Trim(_)
Trim(ps) == IF ps # <<>> /\ ps[Len(ps)] = "" THEN Trim(SubSeq(ps, 1, Len(ps) - 1)) ELSE ps
(* a prefix has a leading slash and no trailing one; <<>> is none *)
Prefix(ps) == IF ps = <<"">> THEN <<>> ELSE Trim(IF Head(ps) = "" THEN ps ELSE <<"">> \o ps)

Below(pre, ps) == Len(ps) >= Len(pre) /\ SubSeq(ps, 1, Len(pre)) = pre
Rest(pre, ps) == IF pre = <<>> THEN ps ELSE <<"">> \o SubSeq(ps, Len(pre) + 1, Len(ps))

R(r, c) == [r |-> r, c |-> c]
Pass == R("pass", "")
Absent == R("404", "")
Content(tree, k) == R("content", tree.files[k])
IsFile(tree, k) == k \in DOMAIN tree.files
Fallback(tree, f) == LET k == Name(Clean(f.try))
                     IN  IF f.try # <<"">> /\ IsFile(tree, k) THEN Content(tree, k) ELSE Absent
Index(ps) == Name(ps \o <<"index.html">>)

Answer(tree, f, method, ps) ==
  LET pre == Prefix(f.prefix)
      rest == Rest(pre, ps)
      at == Clean(rest)
      k == Name(at)
  IN  CASE ~f.any /\ method \notin {"GET", "HEAD"} -> Pass
        [] ~Below(pre, ps) -> Pass
        [] \E i \in DOMAIN f.skip : StartsWith(Text(rest), f.skip[i]) -> Pass
        [] IsFile(tree, k) -> Content(tree, k)
        [] k \in tree.dirs ->
             IF ps[Len(ps)] # "" THEN R("redirect", "")
             ELSE IF IsFile(tree, Index(at)) THEN Content(tree, Index(at)) ELSE Absent
        [] OTHER -> Fallback(tree, f)
(* where a redirect leads: same place, in slash form *)
Slashed(ps, to) == to # <<>> /\ to[Len(to)] = "" /\ Clean(to) = Clean(ps)
=============================================================================
