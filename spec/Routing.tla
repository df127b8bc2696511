------------------------------ MODULE Routing ------------------------------
(***************************************************************************)
(* Route registration, route resolution, method dispatch and filter-set    *)
(* composition (properties C01-C04).                                       *)
(*                                                                         *)
(* A pattern is a sequence of segment texts.  Registration nodes are       *)
(*   [parts, filters, exempts, methods, subs]                              *)
(* with methods of the form                                                *)
(*   [m, act, ctl, meths, custom, filters, exempts]                        *)
(* (m is the HTTP method, "*" for All and "**" for Any; ctl says that the  *)
(* handler is a controller object whose methods are meths).                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, StrLib

----------------------------------------------------------------------------
(* Segments: [r |-> rank, t |-> text, name |-> parameter, verb |-> suffix];  *)
(* ranks: literal 3 > :name:verb 2 > :name 1 > *:name 0                      *)

Seg(t) ==
  LET par  == HasPrefix(t, ":")
      wild == HasPrefix(t, "*:")
      bare == IF par THEN DropFirst(t, 1) ELSE DropFirst(t, 2)
      i    == Index(bare, ":")
      verb == IF par /\ i # 0 THEN DropFirst(bare, i - 1) ELSE ""
      name == IF i # 0 THEN SubSeq(bare, 1, i - 1) ELSE bare
  IN  IF ~par /\ ~wild THEN [r |-> 3, t |-> t, name |-> "", verb |-> ""]
      ELSE [r |-> IF wild THEN 0 ELSE IF verb # "" THEN 2 ELSE 1, t |-> t, name |-> name, verb |-> verb]

IsLit(g)   == g.r = 3
IsParam(g) == g.r \in {1, 2}
IsWild(g)  == g.r = 0
Parse(texts) == [i \in 1..Len(texts) |-> Seg(texts[i])]
Texts(pat)   == [i \in 1..Len(pat) |-> pat[i].t]

SegMatches(g, s) == CASE g.r = 3 -> g.t = s
                      [] g.r = 2 -> HasSuffix(s, g.verb)
                      [] g.r = 1 -> TRUE
                      [] OTHER   -> FALSE
SegValue(g, s) == DropLast(s, Len(g.verb))

(* a path text denotes the sequence of its segments *)
RECURSIVE CleanSegs(_, _)
CleanSegs(parts, acc) ==
  IF parts = <<>> THEN acc
  ELSE LET h == Head(parts)
       IN  IF h = "" \/ h = "." THEN CleanSegs(Tail(parts), acc)
           ELSE IF h = ".." THEN CleanSegs(Tail(parts), IF acc = <<>> THEN <<>> ELSE SubSeq(acc, 1, Len(acc) - 1))
           ELSE CleanSegs(Tail(parts), Append(acc, h))
Segs(parts) == CleanSegs(parts, <<>>)               \* parts: the trimmed path split at "/"

PathText(pat) == IF pat = <<>> THEN "/" ELSE "/" \o Join(Texts(pat), "/")

----------------------------------------------------------------------------
(* Resolution.  Matches / Better / Resolve is the definition a user relies *)
(* on; Descend is the segment-by-segment search with backtracking that the *)
(* router performs.  The design model checks that they agree.              *)

Matches(pat, segs) ==
  IF pat # <<>> /\ IsWild(pat[Len(pat)])
    THEN /\ Len(segs) >= Len(pat)
         /\ \A i \in 1..(Len(pat) - 1) : SegMatches(pat[i], segs[i])
    ELSE /\ Len(segs) = Len(pat)
         /\ \A i \in 1..Len(pat) : SegMatches(pat[i], segs[i])

Better(p, q) ==                                     \* first difference decides
  LET D == { i \in 1..Len(p) : i > Len(q) \/ p[i] # q[i] }
  IN  D # {} /\ LET i == CHOOSE x \in D : \A y \in D : x <= y
                IN  i <= Len(q) /\ p[i].r > q[i].r

NONE == << [r |-> 9, t |-> "*none*", name |-> "", verb |-> ""] >>

Resolve(ends, segs) ==
  LET M == { p \in ends : Matches(p, segs) }
  IN  IF M = {} THEN NONE
      ELSE CHOOSE p \in M : \A q \in M \ {p} : Better(p, q)

(* nodes: all prefixes of registered patterns; ends: registered patterns *)
Kids(nodes, node) == { n[Len(n)] : n \in { m \in nodes : Len(m) = Len(node) + 1 /\ SubSeq(m, 1, Len(node)) = node } }

RECURSIVE Descend(_, _, _, _)
Descend(nodes, ends, node, segs) ==
  IF segs = <<>> THEN (IF node \in ends THEN node ELSE NONE)
  ELSE
    LET K     == Kids(nodes, node)
        Try(t) == Descend(nodes, ends, Append(node, t), Tail(segs))
        lits  == { t \in K : IsLit(t) /\ t.t = Head(segs) }
        verbs == { t \in K : t.r = 2 /\ SegMatches(t, Head(segs)) }
        plain == { t \in K : t.r = 1 }
        wild  == { t \in K : IsWild(t) }
        Pick(S) == IF \E t \in S : Try(t) # NONE THEN Try(CHOOSE t \in S : Try(t) # NONE) ELSE NONE
    IN  IF Pick(lits) # NONE THEN Pick(lits)
        ELSE IF Pick(verbs) # NONE THEN Pick(verbs)
        ELSE IF Pick(plain) # NONE THEN Pick(plain)
        ELSE IF wild # {} THEN Append(node, CHOOSE t \in wild : TRUE)
        ELSE NONE

(* parameters of the chosen pattern, in path order: <<name, value>> *)
RECURSIVE ParamsOf(_, _)
ParamsOf(pat, segs) ==
  IF pat = <<>> THEN <<>>
  ELSE LET t == Head(pat)
       IN  IF IsWild(t) THEN << <<t.name, Join(segs, "/")>> >>
           ELSE IF IsParam(t) THEN << <<t.name, SegValue(t, Head(segs))>> >> \o ParamsOf(Tail(pat), Tail(segs))
           ELSE ParamsOf(Tail(pat), Tail(segs))

----------------------------------------------------------------------------
(* Registration *)

Empty == [nodes |-> {<<>>}, ends |-> {<<>>}, decls |-> <<>>, app |-> <<>>, bad |-> FALSE]

Conflict(nodes, at, t) ==
  \E u \in Kids(nodes, at) :
    \/ IsParam(t) /\ IsParam(u) /\ u.name # t.name
    \/ IsWild(t) /\ IsWild(u) /\ u.name # t.name

RECURSIVE AddPath(_, _, _)
AddPath(s, at, segs) ==
  IF s.bad THEN s
  ELSE IF segs = <<>> THEN [s EXCEPT !.ends = @ \cup {at}]
  ELSE LET t == Head(segs)
           n == Append(at, t)
       IN  IF Conflict(s.nodes, at, t) \/ (IsWild(t) /\ Len(segs) > 1)
             THEN [s EXCEPT !.bad = TRUE]
             ELSE AddPath([s EXCEPT !.nodes = @ \cup {n}], n, Tail(segs))

TitleOf(m) == IF m = "" THEN "" ELSE Ch(m, 1) \o ToLower(DropFirst(m, 1))

DefaultAction(d) ==
  IF d.custom # "" THEN d.custom
  ELSE IF d.m = "*" THEN (IF d.ctl /\ "All" \in Ran(d.meths) THEN "All" ELSE "")
  ELSE IF d.m = "**" THEN (IF d.ctl THEN "Any" ELSE "")
  ELSE IF d.ctl THEN TitleOf(d.m) ELSE ""

(* a declaration naming an action its handler does not have *)
Lacks(d) == IF d.ctl THEN DefaultAction(d) # "" /\ DefaultAction(d) \notin Ran(d.meths)
            ELSE d.custom # ""

(* the filters of a declaration: inherited ones first, each once, then exemptions *)
Compose(inherited, add, exempt) == SelectNot(AppendNew(inherited, add), Ran(exempt))

RECURSIVE AddMethods(_, _, _, _)
AddMethods(s, pat, fs, ms) ==
  IF ms = <<>> THEN s
  ELSE LET d == Head(ms)
           rec == [pat |-> pat, m |-> d.m, act |-> d.act, ctl |-> d.ctl, meths |-> d.meths,
                   action |-> DefaultAction(d), filters |-> Compose(fs, d.filters, d.exempts)]
       IN  AddMethods([s EXCEPT !.decls = Append(@, rec), !.bad = @ \/ Lacks(d)], pat, fs, Tail(ms))

RECURSIVE AddNode(_, _, _, _), AddSubs(_, _, _, _)
AddNode(s, pat, inherited, node) ==
  IF s.bad THEN s
  ELSE LET fs == Compose(inherited, node.filters, node.exempts)
       IN  AddSubs(AddMethods(s, pat, fs, node.methods), pat, fs, node.subs)
AddSubs(s, pat, fs, subs) ==
  IF s.bad \/ subs = <<>> THEN s
  ELSE LET sub  == Head(subs)
           segs == Parse(Segs(sub.parts))
           s1   == AddPath(s, pat, segs)
       IN  AddSubs(AddNode(s1, pat \o segs, fs, sub), pat, fs, Tail(subs))

(* a path that is refused before anything is registered *)
RECURSIVE RootSub(_)
RootSub(node) == \E i \in 1..Len(node.subs) :
                   node.subs[i].parts \in {<<"">>, <<"", "">>} \/ RootSub(node.subs[i])

Register(s, root) == IF RootSub(root) THEN [s EXCEPT !.bad = TRUE]
                     ELSE AddNode(s, <<>>, <<>>, root)
AppFilter(s, fs) == [s EXCEPT !.app = AppendNew(@, fs)]

----------------------------------------------------------------------------
(* Method dispatch *)

(* the latest declaration of slot m at pattern pat *)
Slot(s, pat, m) ==
  LET I == { i \in 1..Len(s.decls) : s.decls[i].pat = pat /\ s.decls[i].m = m }
  IN  IF I = {} THEN <<>> ELSE << s.decls[CHOOSE i \in I : \A j \in I : j <= i] >>

(* <<>>, or the declaration and the controller method that serves method M *)
Dispatch(s, pat, method) ==
  LET M   == ToUpper(method)
      own == Slot(s, pat, M)
      get == Slot(s, pat, "GET")
      all == Slot(s, pat, "*")
      any == Slot(s, pat, "**")
      Run(d, f) == << [d |-> d, f |-> IF d.ctl THEN f ELSE ""] >>
  IN  IF own # <<>> THEN Run(own[1], own[1].action)
      ELSE IF M = "HEAD" /\ get # <<>> THEN Run(get[1], get[1].action)
      ELSE IF all # <<>> /\ (~all[1].ctl \/ TitleOf(M) \in Ran(all[1].meths)) THEN Run(all[1], TitleOf(M))
      ELSE IF all # <<>> /\ all[1].action # "" THEN Run(all[1], all[1].action)
      ELSE IF any # <<>> THEN Run(any[1], any[1].action)
      ELSE <<>>

(* what serving one request must show *)
Serve(s, parts, method) ==
  LET segs == Segs(parts)
      pat  == Resolve(s.ends, segs)
      run  == IF pat = NONE THEN <<>> ELSE Dispatch(s, pat, method)
  IN  IF run = <<>>
        THEN [found |-> FALSE, act |-> "", meth |-> "", path |-> "", params |-> <<>>, log |-> s.app]
        ELSE [found |-> TRUE, act |-> run[1].d.act, meth |-> run[1].f, path |-> PathText(pat),
              params |-> ParamsOf(pat, segs), log |-> s.app \o run[1].d.filters]
=============================================================================
