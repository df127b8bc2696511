----------------------------- MODULE InjectTrace -----------------------------
(* Recorded injection histories.  Which providers ran is part of the        *)
(* observation: their order is not prescribed, but each run must be one     *)
(* that was needed, not yet remembered, and given the right arguments.      *)
(* A deviation is charged to the properties it concerns; one that does not  *)
(* concern the property under check ends the trace (st.dead).               *)
EXTENDS Inject, Integers, TraceLib

PROP == IOEnv.PROP
GStart(cfg) == Init0 @@ [dead |-> FALSE, nils |-> {}]    \* nils: registrations that return nil pointers

Chk(c, ps) == IF c THEN {} ELSE ps
(* a nil pointer gives nil, or leaves a target that is no pointer as it was *)
Wrong(s, v, w) == IF v = w \/ (w.p \in s.nils /\ v.p \in {0, -1}) THEN {} ELSE IF v.p = w.p THEN {"C11"} ELSE {"C10", "C11"}

Args(s, sc, deps, args) ==
  IF Len(args) # Len(deps) THEN {"C12"}
  ELSE UNION { Wrong(s, args[i], Value(s, sc, Key(deps[i].ty, deps[i].n))) : i \in 1..Len(deps) }

(* the providers that ran, one after the other *)
RECURSIVE Runs(_, _, _, _, _)
Runs(s, sc, runs, need, bad) ==
  IF runs = <<>> THEN [s |-> s, bad |-> bad]
  ELSE LET x == Head(runs)
           ks == { k \in need : Resolve(s, sc, k).id = x.p }
           k == CHOOSE y \in ks : TRUE
           r == Resolve(s, sc, k)
       IN  IF ks = {} THEN [s |-> s, bad |-> bad \cup {"C10", "C11"}]
           ELSE Runs(Remember(s, sc, k, [p |-> x.p, r |-> x.r]), sc, Tail(runs), need,
                     bad \cup Chk(~Known(s, sc, k), {"C11"}) \cup Args(s, sc, r.deps, x.args))

(* outcome of an operation whose targets are the dependencies ds *)
Outcome(pr, o) ==
  IF o = "panic" THEN {"C10", "C12"}
  ELSE IF pr = {} THEN Chk(o = "ok", {"C10", "C12"})
  ELSE Chk(o = "err", (IF pr \cap {"missing", "cycle"} # {} THEN {"C12"} ELSE {})
                      \cup (IF pr \cap {"missing", "assign"} # {} THEN {"C10"} ELSE {}))

Op(s, sc, ds, obs) ==
  LET pr == Wants(s, sc, ds, {})
      rr == Runs(s, sc, obs.runs, Needed(s, sc, { Key(ds[i].ty, ds[i].n) : i \in 1..Len(ds) }, {}), {})
  IN  [s |-> rr.s, bad |-> rr.bad \cup Outcome(pr, obs.out), pr |-> pr]

Untouched(v) == Chk(v.p = -1, {"C10"})

R(bad, s, want) ==
  IF bad = {} THEN [ok |-> TRUE, st |-> s, want |-> want]
  ELSE IF PROP \in bad THEN [ok |-> FALSE, st |-> s, want |-> [violates |-> bad, expected |-> want]]
  ELSE [ok |-> TRUE, st |-> [s EXCEPT !.dead = TRUE], want |-> want]

GStep(s, e) ==
  IF s.dead THEN [ok |-> TRUE, st |-> s, want |-> <<>>]
  ELSE
  CASE e.op = "scope" -> R({}, AddScope(s, e.in.par) @@ [dead |-> FALSE, nils |-> s.nils], <<>>)
    [] e.op = "parent" -> R({}, [s EXCEPT !.par[e.in.s] = e.in.par], <<>>)
    [] e.op = "prov" ->
         LET b == IF e.in.as = "" THEN e.in.ty.b ELSE e.in.as
         IN  R(Chk(e.obs.panic = "", {"C10", "C12"}),
               Register(IF e.in.null THEN [s EXCEPT !.nils = @ \cup {e.in.id}] ELSE s, e.in.s, [b |-> b, n |-> e.in.n],
                        [id |-> e.in.id, fn |-> e.in.fn, ty |-> e.in.ty, deps |-> e.in.deps]), <<>>)
    [] e.op = "find" ->
         LET d == [ty |-> e.in.ty, n |-> e.in.n]
             x == Op(s, e.in.s, <<d>>, e.obs)
             w == Value(x.s, e.in.s, Key(d.ty, d.n))
         IN  R(x.bad \cup (IF e.obs.out = "ok" /\ x.pr = {} THEN Wrong(x.s, e.obs.v, w) ELSE Untouched(e.obs.v)),
               x.s, [problems |-> x.pr, v |-> w])
    [] e.op = "exists" ->
         LET k == Key(e.in.ty, e.in.n)
             r == Resolve(s, e.in.s, k)
             bad == r.id = 0 \/ (~r.fn /\ ~Fits(r.ty, e.in.ty))
             w == [p |-> r.id, r |-> 0]
         IN  R(Chk(e.obs.runs = <<>>, {"C11"}) \cup Chk(e.obs.out = (IF bad THEN "err" ELSE "ok"), {"C10"})
               \cup (IF bad \/ r.fn THEN Untouched(e.obs.v) ELSE Wrong(s, e.obs.v, w)), s, [bad |-> bad, v |-> w])
    [] e.op = "apply" ->
         LET fs == e.in.fields
             in(i) == fs[i].tag /\ fs[i].open /\ fs[i].depth <= 3
             tg == SelectSeq([i \in 1..Len(fs) |-> fs[i] @@ [in |-> in(i)]], LAMBDA f : f.in)
             x == Op(s, e.in.s, tg, e.obs)
             w(i) == Value(x.s, e.in.s, Key(fs[i].ty, fs[i].n))
             one(i) == LET v == e.obs.vs[i]
                       IN  IF ~in(i) THEN Untouched(v)
                           ELSE IF x.pr # {} /\ v.p = -1 THEN {}
                           ELSE Wrong(x.s, v, w(i))
         IN  R(x.bad \cup UNION { one(i) : i \in 1..Len(fs) }, x.s,
               [problems |-> x.pr, vs |-> [i \in 1..Len(fs) |-> IF in(i) THEN w(i) ELSE [p |-> -1, r |-> 0]]])
    [] e.op = "invoke" ->
         LET x == Op(s, e.in.s, e.in.deps, e.obs)
         IN  R(x.bad \cup (IF x.pr = {} /\ e.obs.out = "ok" THEN Args(x.s, e.in.s, e.in.deps, e.obs.args) ELSE {})
               \cup Chk(e.obs.out # "skipped", {"C11"}), x.s, [problems |-> x.pr])
    [] e.op = "ret" -> R(Chk(e.obs.out = "ok", {"C10", "C12"}) \cup Chk(e.obs.v = [p |-> e.in.id, r |-> e.in.r], {"C11"}), s, <<>>)
    [] OTHER -> [ok |-> FALSE, st |-> s, want |-> "known event"]
=============================================================================
