------------------------------- MODULE Inject -------------------------------
(***************************************************************************)
(* Dependency injection (C10, C11, C12): scopes with registrations, what a *)
(* request for a type and name resolves to, which providers run for it,    *)
(* and what is remembered.                                                 *)
(*                                                                         *)
(* A Go type is [b, p]: base type and number of pointers.  A key is [b, n]:*)
(* base type and name.  A registration is [id, fn, ty, deps]: a value (of  *)
(* type ty) or a provider function returning ty; deps are [ty, n].         *)
(* A value is [p, r]: the registration which made it and in which run.     *)
(* State: par   scope -> enclosing scope, 0 none                           *)
(*        reg   scope -> key -> registration                               *)
(*        memo  scope -> key -> [v, ty], results of providers run there    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

T(b, p) == [b |-> b, p |-> p]
Key(ty, n) == [b |-> ty.b, n |-> n]
NoVal == [p |-> 0, r |-> 0]
NoReg == [id |-> 0, fn |-> FALSE, ty |-> T("", 0), deps |-> <<>>]

(* Go's assignability between the types in use *)
Assignable(o, e) ==
  \/ o = e
  \/ e = T("any", 0)
  \/ e = T("I", 0) /\ o \in {T("A", 0), T("A", 1), T("B", 1)}
  \/ {o, e} = {T("L", 0), T("[]string", 0)}
(* a pointer may also be injected as what it points to *)
Fits(o, e) == Assignable(o, e) \/ (o.p > 0 /\ Assignable(T(o.b, o.p - 1), e))

Init0 == [par |-> <<0>>, reg |-> <<<<>>>>, memo |-> <<<<>>>>]
AddScope(s, par) == [par |-> Append(s.par, par), reg |-> Append(s.reg, <<>>), memo |-> Append(s.memo, <<>>)]

Has(f, k) == k \in DOMAIN f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Register(s, sc, k, r) == [s EXCEPT !.reg[sc] = (k :> r) @@ @, !.memo[sc] = Drop(@, k)]

RECURSIVE Resolve(_, _, _)
Resolve(s, sc, k) == IF sc = 0 THEN NoReg
                     ELSE IF Has(s.reg[sc], k) THEN s.reg[sc][k] ELSE Resolve(s, s.par[sc], k)

(* remembered, and still registered in sight (a scope may change parents)   *)
Known(s, sc, k) == Has(s.memo[sc], k) /\ Resolve(s, sc, k).id # 0
TypeOf(s, sc, k) == IF Known(s, sc, k) THEN s.memo[sc][k].ty ELSE Resolve(s, sc, k).ty

(* what stands in the way of providing k in scope sc *)
RECURSIVE Problems(_, _, _, _)
Wants(s, sc, deps, path) ==
  UNION { LET k == Key(deps[i].ty, deps[i].n)
              q == Problems(s, sc, k, path)
          IN  q \cup (IF q = {} /\ ~Fits(TypeOf(s, sc, k), deps[i].ty) THEN {"assign"} ELSE {}) : i \in 1..Len(deps) }
Problems(s, sc, k, path) ==
  LET r == Resolve(s, sc, k)
  IN  IF Known(s, sc, k) THEN {}
      ELSE IF r.id = 0 THEN {"missing"}
      ELSE IF ~r.fn THEN {}
      ELSE IF k \in path THEN {"cycle"}
      ELSE Wants(s, sc, r.deps, path \cup {k})

(* the keys whose providers may have to run *)
RECURSIVE Needed(_, _, _, _)
Needed(s, sc, todo, done) ==
  IF todo = {} THEN done
  ELSE LET k == CHOOSE x \in todo : TRUE
           r == Resolve(s, sc, k)
           go == ~Known(s, sc, k) /\ r.fn
           ds == IF go THEN { Key(r.deps[i].ty, r.deps[i].n) : i \in 1..Len(r.deps) } ELSE {}
       IN  Needed(s, sc, (todo \cup ds) \ (done \cup {k}), IF go THEN done \cup {k} ELSE done)

(* the value of k, once provided *)
Value(s, sc, k) == IF Known(s, sc, k) THEN s.memo[sc][k].v
                   ELSE LET r == Resolve(s, sc, k) IN IF r.id = 0 \/ r.fn THEN NoVal ELSE [p |-> r.id, r |-> 0]
Remember(s, sc, k, v) == [s EXCEPT !.memo[sc] = (k :> [v |-> v, ty |-> Resolve(s, sc, k).ty]) @@ @]
=============================================================================
