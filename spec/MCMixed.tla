------------------------------ MODULE MCMixed -------------------------------
(***************************************************************************)
(* Explores sessions in which both layers use one stream.                  *)
(* Profile:  read   documents of up to Size tokens; fields are pulled and  *)
(*                  skipped, and messages, rests of structs and fields     *)
(*                  deserialised, some after a failure                     *)
(*           write  elements and values are written                        *)
(* The invariants state what the typed operations must have done to the    *)
(* stream in terms of its elements alone.  With Emitting, prints histories *)
(* to be performed on the real library.                                    *)
(***************************************************************************)
EXTENDS Mixed

CONSTANTS Profile, Depth, Size, Emitting, Shard, Shards

VARIABLES s,     \* the stream
          h,     \* the operations so far
          init,  \* the bytes it had
          pre,   \* the state before the last operation
          last,  \* what the last operation was and what came of it
          w      \* what has been written: the operations, and where
vars == <<s, h, init, pre, last, w>>

Names == { Types[i].nm : i \in 1..Len(Types) } \ {""}
Idx == [n \in Names |-> CHOOSE i \in 1..Len(Types) : Types[i].nm = n]
T(nm) == Idx[nm]
Wide == [rec |-> 60, strict |-> FALSE, mb |-> N(16777216), mc |-> 100000]
Strict == [Wide EXCEPT !.strict = TRUE]
O(o) == [o |-> o]

---------------------------------------------------------------------------
Tokens == << <<SpEos>>, <<64>>, <<65, 5>>, <<66, 3>>, <<129, 1, 97>>, <<130, 0>>, <<193>>,
             <<1, 1>>, <<192>>, <<128, 1, 33>>, <<193, 65, 7, SpEos>> >>
RECURSIVE Docs(_)
Docs(n) == IF n = 0 THEN { <<>> }
           ELSE { q \o <<k>> : q \in { p \in Docs(n - 1) : Len(p) = n - 1 }, k \in 1..Len(Tokens) }
                \cup Docs(n - 1)
Bytes(q) == FoldLeft(LAMBDA a, k : a \o Tokens[k], <<>>, q)
InShard(q) == FoldLeft(LAMBDA a, x : (3 * a + x) % 1009, 0, q) % Shards = Shard

De(nm, g) == [t |-> T(nm), zc |-> FALSE, cfg |-> g]
TypedOp(o, e) == [o |-> o, t |-> e.t, zc |-> FALSE, cfg |-> e.cfg]
Rec(d, e) == [o |-> "t_rec", t |-> e.t, zc |-> FALSE, cfg |-> e.cfg, d |-> d]
Sers == << <<T("Pt"), <<N(7), N(300)>> >>, <<T("u8"), N(3)>> >>
ReadMenu ==
  { O("nf"), O("skip"), [o |-> "skip_up", d |-> 0] }
  \cup { TypedOp("t_de", e) : e \in {De("(u8, String)", Wide), De("Vec<u32>", Wide), De("UnkS", Wide)} }
  \cup { Rec(d, e) : e \in {De("(u8, String)", Strict), De("Option<u32>", Strict)}, d \in {0, 1} }
  \cup { TypedOp("t_elem", e) : e \in {De("u8", Wide), De("String", Wide), De("Vec<u32>", Wide), De("UnkS", Strict)} }

Ser(nm, v, m, tag) ==
  LET op == [o |-> "t_ser", t |-> T(nm), v |-> v, m |-> m, tag |-> tag]
  IN [o |-> "t_ser", t |-> T(nm), v |-> v, m |-> m, tag |-> tag,
      src |-> SerBody(op.t, v)]
Str(d) == [o |-> -1, d |-> d]
WriteMenu ==
  { [o |-> "w_int", tag |-> 3, t |-> "u64", i |-> <<FALSE, N(200)>>],
    [o |-> "w_struct", tag |-> 63], O("w_eos"), [o |-> "w_dyn", tag |-> 2],
    [o |-> "b_write", d |-> <<1, 2>>, n |-> 2], O("commit") }
  \cup { Ser("(u8, String)", <<N(200), Str(<<97, 0>>)>>, m, 5) : m \in {"msg", "body", "field", "elem"} }
  \cup { Ser("Vec<u32>", <<N(1), N(128)>>, m, 63) : m \in {"body", "field", "elem"} }
  \cup { Ser("Option<u32>", v, m, 1) : v \in { <<>>, <<N(9)>> }, m \in {"field", "elem"} }
MenuSeq == SetToSeq(IF Profile = "read" THEN ReadMenu ELSE WriteMenu)
Menu == IF Profile = "read" THEN ReadMenu ELSE WriteMenu
First == IF Profile = "read" THEN Menu
         ELSE { MenuSeq[k] : k \in { n \in 1..Len(MenuSeq) : n % Shards = Shard } }

---------------------------------------------------------------------------
Init ==
  /\ \E q \in IF Profile = "read" THEN Docs(Size) ELSE { <<>> } :
       /\ Profile = "read" => InShard(q)
       /\ s = InitState(Bytes(q), FALSE)
       /\ init = Bytes(q)
  /\ h = <<>> /\ pre = s /\ last = <<>> /\ w = <<>>

Hist(ops) == IF Emitting THEN PrintT("H " \o ToJson([b |-> init, ops |-> ops])) ELSE TRUE
Enabled(op) == op.o \in {"skip", "t_elem"} => s.h # "none"
               /\ (op.o = "t_elem" => s.ht # "x")
Writes(op) == op.o \in {"t_ser", "w_int", "w_struct", "w_eos", "w_dyn"}
Next ==
  /\ ~s.dd /\ Len(h) < Depth
  /\ \E op \in IF h = <<>> THEN First ELSE Menu :
       /\ Enabled(op)
       /\ h' = Append(h, op) /\ pre' = s /\ init' = init
       /\ IF Typed(op)
          THEN \E o \in TypedOutcomes(s, op) :
                 s' = o.s /\ last' = <<op, o.m>> /\ w' = w
          ELSE \E o \in IF op.o = "t_ser" THEN SerOutcomes(s, op) ELSE Outcomes(s, op) :
                 /\ s' = o.s /\ last' = <<op, o.r>>
                 /\ w' = IF Writes(op) /\ o.r.k \in {"ok", "b"}
                         THEN Append(w, <<op, o.s.ip>>) ELSE w
       /\ Hist(Append(h, op))

Spec == Init /\ [][Next]_vars
View == <<s, init, pre, last, w>>

---------------------------------------------------------------------------
(* Where the first element ends which closes what was open at depth dep:   *)
(* an end of the struct or of the document.                                *)
RECURSIVE CloseAt(_, _)
CloseAt(t, n) ==
  LET e == NextElem(t)
  IN IF e.c # "ok" THEN [c |-> e.c, s |-> e.s]
     ELSE LET u == [e.s EXCEPT !.h = "none"]
          IN IF e.k = "eod" THEN [c |-> "ok", s |-> u]
             ELSE IF e.k = "eos" /\ n = 0 THEN [c |-> "ok", s |-> u]
             ELSE CloseAt(u, IF e.k = "eos" THEN n - 1
                             ELSE IF e.k = "f" /\ e.t \in {"s", "e"} THEN n + 1 ELSE n)
Did(o) == last # <<>> /\ last[1].o = o
Same(a, b) == a.pos = b.pos /\ a.ip = b.ip /\ a.dep = b.dep /\ a.eof = b.eof

\* a message that was read is the elements up to the one which closes it
MessageOk == (last # <<>> /\ last[1].o \in {"t_de", "t_rec"} /\ last[2].ok) =>
  IF pre.eof THEN Same(s, Commit(pre).s)
  ELSE LET e == CloseAt(pre, 0) IN e.c = "ok" /\ Same(s, e.s)
\* a field that was read is where skipping it leads to
FieldOk == (Did("t_elem") /\ last[2].ok /\ ~s.dd) =>
  LET c == Commit(s)
      f == IF pre.h = "sub" THEN CloseAt(pre, 0) ELSE [c |-> "ok", s |-> Commit(pre).s]
  IN c.c = "ok" => f.c = "ok" /\ c.s.pos = f.s.pos /\ c.s.dep = f.s.dep
\* after a failure skipping up finds the end of a struct that was open, or
\* has nothing to skip
RecoverOk == (Did("t_rec") /\ ~last[2].ok /\ ~s.dd /\ last[2].e.c # "stream") =>
  s.dep <= last[1].d \/ s.eof
\* the limits are wide enough for all of this, so what was rejected is not a
\* document of the type; at least the elements before the error make sense
NoLimitOk == (last # <<>> /\ Typed(last[1]) /\ ~last[2].ok) =>
  last[2].e.c \notin {"rec", "maxb", "maxc"}

\* everything written reads back as what it was: t is what is read, q what
\* was written, each with where it ended
Upto(t, end) == [t EXCEPT !.b = SubSeq(@, 1, ToInt(end))]
ElemBack(t, op, end) ==
  LET e == NextElem(t)
      m == Elem(op.t, Start0(e.s, Wide), <<>>, e, FALSE)
  IN /\ e.c = "ok" /\ e.k = "f" /\ e.tag = op.tag
     /\ m.ok /\ VEq(op.t, op.v, m.v, FALSE)
     /\ Commit(m.s).c = "ok" /\ Commit(m.s).s.ip = end
\* a body, with the end it needs
BodyBack(t, op, end) ==
  LET m == Deserialise(op.t, [Upto(t, end) EXCEPT !.b = @ \o <<SpEos>>], Wide, FALSE)
  IN m.ok /\ VEq(op.t, op.v, m.v, FALSE)
SkipWhole(e) ==
  IF e.c # "ok" THEN [c |-> e.c, s |-> e.s]
  ELSE IF e.t \in {"s", "e"} THEN CloseAt([e.s EXCEPT !.h = "none"], 0)
  ELSE LET k == Commit(e.s) IN [c |-> k.c, s |-> [k.s EXCEPT !.h = "none"]]
RECURSIVE FieldsBack(_, _, _)
FieldsBack(t, tag, end) ==
  t.ip = end \/ LET e == NextElem(t)
                    k == SkipWhole(e)
                IN e.c = "ok" /\ e.k = "f" /\ e.tag = tag
                   /\ k.c = "ok" /\ FieldsBack(k.s, tag, end)
RECURSIVE BackOk(_, _)
BackOk(t, q) ==
  IF q = <<>> THEN NextElem(t).c # "ok"
  ELSE LET op  == q[1][1]
           end == q[1][2]
       IN /\ IF op.o # "t_ser" THEN LET e == NextElem(t)
                                    IN e.c = "ok" /\ e.s.ip = end
             ELSE CASE op.m \in {"msg", "body"} -> BodyBack(t, op, end)
                    [] op.m = "elem"  -> ElemBack(t, op, end)
                    [] op.m = "field" -> FieldsBack(Upto(t, end), op.tag, end)
          /\ BackOk([t EXCEPT !.ip = end, !.pos = end],
                    SubSeq(q, 2, Len(q)))
ReadsBack == (Profile = "write" /\ ~s.dd /\ s.cm = "none" /\
              \A k \in 1..Len(w) : w[k][1].o # "w_dyn") =>
               BackOk(InitState(s.b, FALSE), w)

Inv == TypeOK(s) /\ BlobWindow(s)
=============================================================================
