----------------------------- MODULE SessionMC -----------------------------
(* Histories of two clients A and B against the session store, with the     *)
(* clock advancing and the back end failing ("before": nothing was done,    *)
(* "late": it was done but the answer got lost).                            *)
EXTENDS Session, Json, FiniteSets
CONSTANTS N, Exp, Faults, BOps    \* Faults \subseteq {"", "before", "late"}

VARIABLES s, jar, obj, n, hist
vars == <<s, jar, obj, n, hist>>
Who == {"A", "B"}
Empty == [x \in {} |-> 0]
Init == /\ s = [now |-> 0, exp |-> Exp, store |-> Empty, issued |-> Empty, req |-> [w \in Who |-> ""], h |-> Empty]
        /\ jar = [w \in Who |-> ""] /\ obj = [w \in Who |-> 0] /\ n = 1 /\ hist = <<>>

Did(op, w, f) == hist' = Append(hist, <<op, w, f>>)
Id(k) == "s" \o ToString(k)
Tk(k) == "v" \o ToString(k)
Began(w, t, vals) ==        \* a new session with data vals on top of t
  /\ s' = Fresh(t, w, Id(n), Tk(n), vals, FALSE, n)
  /\ jar' = [jar EXCEPT ![w] = Tk(n)] /\ obj' = [obj EXCEPT ![w] = n] /\ n' = n + 1
Req(w) == s' = [s EXCEPT !.req[w] = jar[w]] /\ Did("req", w, "") /\ UNCHANGED <<jar, obj, n>>
Start(w, f) ==
  /\ Did("start", w, f)
  /\ IF ~Valid(s, w) THEN f = "" /\ Began(w, s, NoVals)
     ELSE IF f # "" THEN UNCHANGED <<s, jar, obj, n>>
     ELSE \E q \in Look(s, SidOf(s, w)) :
            /\ s' = [s EXCEPT !.h = Put(@, n, Handle(SidOf(s, w), q.vals, FALSE)), !.store = Put(@, SidOf(s, w), {q.e})]
            /\ obj' = [obj EXCEPT ![w] = n] /\ n' = n + 1 /\ UNCHANGED jar
Regen(w, f) ==
  /\ Did("regen", w, f)
  /\ IF ~Valid(s, w) THEN f = "" /\ Began(w, s, NoVals)
     ELSE LET old == SidOf(s, w)
          IN  IF f # "" THEN s' = (IF f = "late" THEN Gone(s, old, f) ELSE s) /\ UNCHANGED <<jar, obj, n>>
              ELSE \E q \in Look(s, old) :
                     IF q.live
                     THEN /\ s' = Move(s, w, old, Id(n), Tk(n), q.vals, n)
                          /\ jar' = [jar EXCEPT ![w] = Tk(n)] /\ obj' = [obj EXCEPT ![w] = n] /\ n' = n + 1
                     ELSE Began(w, [s EXCEPT !.store = Put(@, old, {q.e})], NoVals)
MDestroy(w, f) ==
  /\ Valid(s, w) /\ Did("mdestroy", w, f)
  /\ s' = Gone(s, SidOf(s, w), f) /\ jar' = [jar EXCEPT ![w] = ""] /\ UNCHANGED <<obj, n>>
Has(w) == obj[w] # 0
Set(w) == Has(w) /\ s' = SetVal(s, obj[w], "k", Tk(Len(hist))) /\ Did("set", w, "") /\ UNCHANGED <<jar, obj, n>>
Clean(w) == Has(w) /\ s' = CleanVals(s, obj[w]) /\ Did("clean", w, "") /\ UNCHANGED <<jar, obj, n>>
Object(op, w, f) ==
  /\ Has(w) /\ Did(op, w, f) /\ UNCHANGED <<jar, obj, n>>
  /\ \E r \in CASE op = "flush" -> Flush(s, obj[w], f)
                [] op = "touch" -> Touch(s, obj[w], f)
                [] OTHER -> DestroyHandle(s, obj[w], f) : s' = r.s
Saved(sid) == UNION { {e.dl} : e \in { e \in Entries(s, sid) : e.has } }
Clear(t) == /\ \A x \in DOMAIN s.store : \A d \in Saved(x) : d - t \notin -1..1
            /\ \A x \in DOMAIN s.issued : s.issued[x].at + Exp - t \notin -1..1
Adv(op, d) == /\ Clear(s.now + d) /\ s' = [s EXCEPT !.now = @ + d] /\ hist' = Append(hist, <<"adv", op, "">>)
              /\ DOMAIN s.issued # {} /\ UNCHANGED <<jar, obj, n>>
Step(w, ops) ==
  \/ "req" \in ops /\ jar[w] # s.req[w] /\ Req(w)
  \/ \E f \in Faults : \/ "start" \in ops /\ Start(w, f)
                       \/ "regen" \in ops /\ Regen(w, f)
                       \/ "mdestroy" \in ops /\ MDestroy(w, f)
                       \/ \E op \in ops \intersect {"flush", "touch", "destroy"} : Object(op, w, f)
  \/ "set" \in ops /\ Set(w)
  \/ "clean" \in ops /\ Clean(w)
All == {"req", "start", "regen", "mdestroy", "flush", "touch", "destroy", "set", "clean"}
Next == Len(hist) < N /\ (IF hist = <<>> THEN Start("A", "")
                          ELSE Step("A", All) \/ Step("B", BOps) \/ Adv("short", Exp \div 2 + 1) \/ Adv("long", Exp + 5))
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = N => PrintT("SCEN " \o ToJson(hist))

Held(w) == { s.issued[t].sid : t \in {jar[w], s.req[w]} \ {""} } \union (IF Has(w) THEN {s.h[obj[w]].sid} ELSE {})
(* clients never share a session, and data is kept only under ids given out *)
Apart == Held("A") \intersect Held("B") = {}
OnlyIssued == DOMAIN s.store \subseteq Known(s) /\ \A i \in DOMAIN s.h : s.h[i].sid \in Known(s)
(* a cookie finds live data or none *)
Expired == \A w \in Who : Valid(s, w) => \A q \in Look(s, SidOf(s, w)) : ~q.live => q.vals = NoVals
Last == hist'[Len(hist')]
(* regenerating leaves nothing under the old id; a failure leaves the data where it was or moves nothing elsewhere *)
Moved == [][\A w \in Who : hist' # hist /\ Last[1] = "regen" /\ Last[2] = w /\ Valid(s, w) =>
              IF Last[3] = "" THEN \A e \in Entries(s', SidOf(s, w)) : ~Alive(e, s'.now)
              ELSE Known(s') = Known(s) /\ \A x \in Known(s) \ {SidOf(s, w)} : Entries(s', x) = Entries(s, x)]_vars
(* a save that fails leaves the changes to be saved again *)
Retry == [][hist' # hist /\ Last[1] = "flush" /\ Last[3] # "" =>
              \A i \in DOMAIN s.h : s'.h[i].changed = s.h[i].changed /\ s'.h[i].vals = s.h[i].vals]_vars
(* what was destroyed does not come back by itself *)
Buried == [][\A x \in DOMAIN s.store : s.store[x] = {Absent} /\ s'.store[x] # {Absent} => hist' # hist /\ Last[1] = "flush"]_vars
=============================================================================
