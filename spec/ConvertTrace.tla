---------------------------- MODULE ConvertTrace ----------------------------
(* Recorded conversions against Convert and Params. *)
EXTENDS Convert, TraceLib
P == INSTANCE Params

CStart(cfg) == cfg

R(ok, s, want) == [ok |-> ok, st |-> s, want |-> want]
Same(obs, want, s) == R(Canon(obs) = want, s, ToString(want))

CStep(s, e) ==
  CASE e.op = "call" ->          \* C06
         LET want == [args |-> <<"r", Args(e.in.kinds, e.in.params)>>, str |-> s.proto.str, num |-> s.proto.num,
                      keep |-> s.proto.keep, dep |-> e.in.id, named |-> "n" \o e.in.id, arr |-> s.proto.arr]
             got  == [args |-> Canon(e.obs.args), str |-> e.obs.str, num |-> e.obs.num,
                      keep |-> e.obs.keep, dep |-> e.obs.dep, named |-> e.obs.named, arr |-> e.obs.arr]
         IN  R(got = want /\ e.obs.panic = "", s, ToString(want))
    [] e.op = "bind" ->          \* C17
         LET want == BoundTo(e.in.v, Look(s.data, e.in.key))
         IN  R(e.obs.panic = "" /\ Canon(e.obs.val) = want, s, ToString(want))
    [] e.op = "import" ->        \* the application's own settings
         LET env(i, v) == IF e.in.env[i] = "" THEN v ELSE <<"s", e.in.env[i]>>
             first == [i \in 1..Len(e.in.keys) |-> env(i, Canon(e.in.vars[i].pre))]
             want == [i \in 1..Len(e.in.keys) |-> env(i, BoundTo(e.in.vars[i], Look(s.data, e.in.keys[i])))]
             All(vs) == [i \in 1..Len(vs) |-> Canon(vs[i])]
             \* configurations imported later change only what they name
             RECURSIVE Later(_, _)
             Later(vs, ms) ==
               IF ms = <<>> THEN [m \in {1, 2, 3} |-> e.obs.is[m]] = [m \in {1, 2, 3} |-> vs[2] = <<"s", <<"prod", "dev", "test">>[m]>>]
               ELSE LET nv == [i \in 1..Len(vs) |->
                                 env(i, BoundTo([e.in.vars[i] EXCEPT !.pre = vs[i]], Look(Head(ms).data, e.in.keys[i])))]
                    IN  All(Head(ms).vals) = nv /\ Later(nv, Tail(ms))
         IN  R(All(e.obs.first) = first /\ All(e.obs.vals) = want /\ Later(want, e.obs.more), s, ToString(want))
    [] e.op = "decode" ->
         LET want == <<"r", Decoded(s.data, "", e.in.fs)>>
         IN  R(e.obs.panic = "" /\ Canon(e.obs.val) = want, s, ToString(want))
    [] e.op = "pbind" ->         \* C19
         LET want == PBind(e.in.vals, e.in.path, e.in.ty)
         IN  R(e.obs.panic = "" /\ Canon(e.obs.val) = want, s, ToString(want))
    [] e.op = "pstruct" ->
         LET want == <<"r", PStruct(e.in.vals, e.in.fs)>>
         IN  R(e.obs.panic = "" /\ Canon(e.obs.val) = want, s, ToString(want))
    [] e.op = "preq" ->          \* C18
         LET i == e.in
             o == e.obs
             want == [values |-> P!Unified(i.query, i.route, i.body), query |-> P!View(i.query),
                      route |-> P!View(i.route), form |-> P!View(i.body), files |-> P!Files(i.files)]
             got  == [values |-> P!AsSet(o.values), query |-> P!AsSet(o.query), route |-> P!AsSet(o.route),
                      form |-> P!AsSet(o.form), files |-> P!AsSet(o.files)]
         IN  R(got = want /\ o.panic = "" /\ o.left = 0, s, ToString(want))
    [] e.op = "json" ->          \* C19: the value of the body, its numbers as asked for
         LET RECURSIVE Form(_)
             Form(ps) == IF ps = <<>> THEN ""
                         ELSE (IF ~Head(ps).n THEN "" ELSE IF e.in.num THEN "number " ELSE "float ") \o Head(ps).s \o Form(Tail(ps))
             want == Form(e.in.parts)
         IN  R(e.obs.panic = "" /\ (IF e.in.bad THEN e.obs.err = "error" ELSE e.obs.err = "" /\ e.obs.form = want), s, want)
    [] OTHER -> R(FALSE, s, "known event")
=============================================================================
