------------------------------- MODULE CtxVal -------------------------------
(* Typed values in contexts (C29): a tree of contexts; each but the first    *)
(* has a parent and may hold one value under a type and a name.  A pointer   *)
(* to a value and a pointer to a pointer to it mean the same type.  Value -1 *)
(* is a nil pointer: it is found, and changes nothing.                       *)
EXTENDS Integers, Sequences
Bare == [up |-> 0, has |-> FALSE, t |-> 0, n |-> "", v |-> 0]
Root == <<Bare>>
With(cs, c, t, n, v) == Append(cs, [up |-> c, has |-> TRUE, t |-> t, n |-> n, v |-> v])
Derive(cs, c) == Append(cs, [Bare EXCEPT !.up = c])
RECURSIVE Lookup(_, _, _, _)
Lookup(cs, c, t, n) == IF c = 0 THEN 0
                       ELSE IF cs[c].has /\ cs[c].t = t /\ cs[c].n = n THEN cs[c].v
                       ELSE Lookup(cs, cs[c].up, t, n)
=============================================================================
