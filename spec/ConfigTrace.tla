---------------------------- MODULE ConfigTrace ----------------------------
(* Recorded loading and lookups of configuration.  State: the loaded files  *)
(* with their parents, and the environment.                                 *)
EXTENDS Config, TraceLib, FiniteSets

GStart(cfg) == [files |-> <<>>, par |-> <<>>, env |-> <<>>]

RECURSIVE Chain(_, _)
Chain(s, i) == IF i = 0 THEN <<>> ELSE <<s.files[i]>> \o Chain(s, s.par[i])

R(ok, s, want) == [ok |-> ok, st |-> s, want |-> want]
Pairs(ps) == { <<ps[i][1], ps[i][2]>> : i \in 1..Len(ps) }

LoadAll(fs) == [i \in 1..Len(fs) |-> Load(fs[i])]
RECURSIVE OkOnly(_)
OkOnly(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q).ok THEN <<Head(q)>> ELSE <<>>) \o OkOnly(Tail(q))

GStep(s, e) ==
  CASE e.op = "load" ->
         LET f == Load(e.in.lines)
         IN  R(e.obs.ok = f.ok /\ e.obs.open = 0, IF f.ok THEN [s EXCEPT !.files = Append(@, f), !.par = Append(@, 0)] ELSE s, f.ok)
    [] e.op = "parent" -> R(TRUE, [s EXCEPT !.par[e.in.child] = e.in.parent], <<>>)
    [] e.op = "env" -> R(TRUE, [s EXCEPT !.env = e.in.env], <<>>)
    [] e.op = "find" -> LET v == Find(Chain(s, e.in.file), s.env, e.in.name.c) IN R(e.obs.v = v, s, v)
    [] e.op = "finddef" -> LET v == Find(Chain(s, e.in.file), s.env, e.in.name.c)
                               w == IF v = "" THEN e.in.def ELSE v
                           IN  R(e.obs.v = w, s, w)
    [] e.op = "bare" -> R(e.obs.v = e.in.def /\ e.obs.none = "", s, e.in.def)
    [] e.op = "list" ->
         LET f == s.files[e.in.file]
             w == Listed(f, e.in.sec)
         IN  R(e.obs.nil = (e.in.sec \notin f.secs) /\ Pairs(e.obs.kv) = w /\ Len(e.obs.kv) = Cardinality(w), s, w)
    [] e.op = "classic" ->
         LET std == { [kind |-> e.in.std[i].kind, mode |-> e.in.std[i].mode, dir |-> e.in.std[i].dir, f |-> Load(e.in.std[i].lines)] :
                        i \in 1..Len(e.in.std) }
             ch  == Classic({ x \in std : x.f.ok }, OkOnly(LoadAll(e.in.extra)))
             bad == Cardinality({ i \in 1..Len(e.in.std) : ~Load(e.in.std[i].lines).ok })
                    + Cardinality({ i \in 1..Len(e.in.extra) : ~Load(e.in.extra[i]).ok }) + e.in.missing
             w   == [i \in 1..Len(e.in.names) |-> Find(ch, s.env, e.in.names[i].c)]
         IN  R(e.obs.vs = w /\ e.obs.bound = w[1] /\ e.obs.app = w[2] /\ e.obs.open = 0 /\ e.obs.reports = bad, s, w)
    [] OTHER -> R(FALSE, s, "known event")
=============================================================================
