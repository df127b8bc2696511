----------------------------- MODULE PipelineMC -----------------------------
(***************************************************************************)
(* Design model: handlers do anything, in every order, in several chain     *)
(* shapes; the properties are checked on the history of events.             *)
(***************************************************************************)
EXTENDS Pipeline, TLC, Json

CONSTANTS Shapes,      \* set of shape names
          MaxOps,      \* operations per handler
          Ops,         \* subset of {"status", "write", "flush", "before", "hdr", "yield", "panic"}
          Rooms,       \* bytes the connection takes
          Gen          \* TRUE: print complete behaviours

H(id) == Elem("h", id)
ShapeOf(n) ==
  CASE n = "plain"  -> << <<H("f1"), H("f2"), Elem("route", "")>>, <<H("g1"), H("act")>> >>
    [] n = "short"  -> << <<H("f1"), Elem("route", "")>>, <<H("act")>> >>
    [] n = "one"    -> << <<Elem("route", "")>>, <<H("act")>> >>
    [] n = "rec"    -> << <<Elem("rec", ""), H("f1"), Elem("route", "")>>, <<H("g1"), H("act")>> >>
    [] n = "recs"   -> << <<Elem("rec", ""), H("f1"), Elem("route", "")>>, <<H("act")>> >>
    [] n = "out"    -> << <<H("f1"), Elem("out", ""), Elem("route", "")>>, <<H("act")>> >>
    [] n = "nf"     -> << <<H("f1"), H("f2"), Elem("route", "")>>, <<Elem("nf", "")>> >>
    [] n = "rgo"    -> << <<Elem("rec", ""), H("f1"), Elem("gz", ""), H("f2"), Elem("route", "")>>, <<H("act")>> >>

VARIABLES s, log, did, shape, yielded

vars == <<s, log, did, shape, yielded>>

Init ==
  \E n \in Shapes : \E dev \in (IF n \in {"rec", "rgo"} THEN BOOLEAN ELSE {FALSE}) : \E room \in Rooms :
    /\ shape = n
    /\ s = Settle(Begin(ShapeOf(n)[1], ShapeOf(n)[2], TRUE, dev, room))
    /\ log = <<>> /\ did = <<>> /\ yielded = {}

Me == Top(s).id
Count(id) == Len(SelectSeq(did, LAMBDA d : d[1] = id))
Rec(ev) == log' = Append(log, ev)
Keep == UNCHANGED <<shape, yielded>>

DoEnter == /\ s.mode = "enter"
           /\ Rec([e |-> "enter", id |-> Due(s).id, wr |-> s.w.st # 0])
           /\ s' = Enter(s) /\ UNCHANGED did /\ Keep
DoResume == /\ s.mode = "resume"
            /\ Rec([e |-> "resume", id |-> Me, wr |-> s.w.st # 0])
            /\ s' = Resume(s) /\ UNCHANGED did /\ Keep
DoExit == /\ s.mode = "user"
          /\ Rec([e |-> "exit", id |-> Me, wr |-> s.w.st # 0])
          /\ s' = Exit(s) /\ UNCHANGED did /\ Keep
DoYield == /\ s.mode = "user" /\ "yield" \in Ops /\ Me # "act" /\ Count(Me) < MaxOps
           /\ (Me \in yielded => s.w.st = 0)
           /\ Rec([e |-> "yield", id |-> Me, wr |-> s.w.st # 0])
           /\ did' = Append(did, <<Me, "yield">>)
           /\ yielded' = yielded \cup {Me}
           /\ s' = Yield(s) /\ UNCHANGED shape
DoPanic == /\ s.mode = "user" /\ "panic" \in Ops
           /\ Rec([e |-> "panic", id |-> Me, wr |-> s.w.st # 0])
           /\ did' = Append(did, <<Me, "panic">>)
           /\ s' = Panic(s) /\ Keep
N == Len(did)
DoOp(op) == /\ s.mode = "user" /\ op \in Ops /\ Count(Me) < MaxOps
            /\ did' = Append(did, <<Me, op>>)
            /\ s' = CASE op = "status" -> Do(s, LAMBDA w : SetStatus(w, 201 + N))
                      [] op = "write"  -> Do(s, LAMBDA w : WriteBody(w, ToString(N), 2))
                      [] op = "flush"  -> Do(s, LAMBDA w : Commit(w))
                      [] op = "hdr"    -> Do(s, LAMBDA w : SetHdr(w, "a", ToString(N)))
                      [] op = "hijack" -> Do(s, LAMBDA w : Hijack([w EXCEPT !.wired = TRUE]))
                      [] op = "before" -> Do(s, LAMBDA w : IF w.com THEN w ELSE AddHook(w, [id |-> N, k |-> "b", v |-> ToString(N), s |-> IF N = 2 THEN 299 ELSE 0]))
            /\ UNCHANGED log /\ Keep
Next == DoEnter \/ DoResume \/ DoExit \/ DoYield \/ DoPanic \/ \E op \in {"status", "write", "flush", "hdr", "before", "hijack"} : DoOp(op)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Order == <<"f1", "f2", "g1", "act">>
Pos(id) == CHOOSE i \in 1..4 : Order[i] = id
Idx(kind) == { i \in 1..Len(log) : log[i].e = kind }

OnceInOrder == \A i, j \in Idx("enter") : i < j => Pos(log[i].id) < Pos(log[j].id)
(* control comes back only when every handler entered since has finished *)
Onion == \A i \in Idx("resume") : \A j \in Idx("enter") :
           Pos(log[j].id) > Pos(log[i].id) => \/ j > i
                                             \/ \E k \in Idx("exit") : j < k /\ k < i /\ log[k].id = log[j].id
StopAfterWrite == \A i \in Idx("enter") : i > 1 /\ log[i - 1].e = "exit" => ~log[i - 1].wr
Handlers == { Order[i] : i \in { j \in 1..4 : \E c \in 1..2 : \E k \in 1..Len(ShapeOf(shape)[c]) :
                                   ShapeOf(shape)[c][k].k = "h" /\ ShapeOf(shape)[c][k].id = Order[j] } }
NoSkip == s.mode = "end" /\ (\A i \in 1..Len(did) : did[i][2] \notin {"status", "write", "flush", "panic"})
            => \A id \in Handlers : \E i \in Idx("enter") : log[i].id = id
OneHead == /\ s.w.heads <= 1 /\ (~s.w.taken => s.w.heads = IF s.w.com THEN 1 ELSE 0)
           /\ s.mode = "end" => s.w.com
(* the size counts what the connection took *)
SizeCounts == s.w.size + s.w.room \in Rooms
HooksOnce == s.w.com => s.w.hooks = <<>> /\ \A i, j \in 1..Len(s.w.ran) : i < j => s.w.ran[i] > s.w.ran[j]
Contained == s.mode = "end" => /\ s.errs = Len(SelectSeq(log, LAMBDA x : x.e = "panic"))
                               /\ (s.errs = 1 /\ \A i \in 1..Len(log) : ~log[i].wr) => s.w.sst = 500
NeverEscapes == s.mode # "escaped"
TakenSilent == [][s.w.taken => s'.w.taken /\ s'.w.heads = s.w.heads /\ s'.w.body = s.w.body /\ s'.w.size = s.w.size]_vars
HeadStable == [][s.w.com => s'.w.sst = s.w.sst /\ s'.w.shdr = s.w.shdr /\ s'.w.st = s.w.st]_vars

Widest == CHOOSE r \in Rooms : \A q \in Rooms : q <= r
Emit == Gen /\ s.mode = "end" /\ s.w.room + s.w.size = Widest => PrintT("SCEN " \o ToJson([shape |-> shape, dev |-> s.dev, did |-> did]))
=============================================================================
