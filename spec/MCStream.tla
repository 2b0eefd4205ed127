------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* Explores the stream machine: every sequence of at most Depth operations *)
(* from a profile's menu, over every document of the profile.  Checks the  *)
(* properties of the machine as invariants, and (with Emit) prints every   *)
(* explored history as a session to be performed on the real library.      *)
(***************************************************************************)
EXTENDS Stream, Json, SequencesExt

CONSTANTS Profile, Depth, Size, Emitting, Shard, Shards

VARIABLES s,     \* the stream
          h,     \* the history: operations
          init,  \* the bytes and position it started with
          base,  \* logical position minus underlying offset
          el     \* elements written so far (write profiles)

vars == <<s, h, init, base, el>>

---------------------------------------------------------------------------
(* Documents.                                                              *)
Cat(q) == LET RECURSIVE C(_)
              C(k) == IF k = 0 THEN <<>> ELSE C(k - 1) \o q[k]
          IN C(Len(q))
\* documents made of at most n of the tokens T
Docs(T, n) == { Cat(q) : q \in UNION { [1..k -> T] : k \in 0..n } }
Heads(d) == { SubSeq(d, 1, k) : k \in 0..Len(d) }

Bytes == { <<0>>, <<64>>, <<128>>, <<192>>, <<65>>, <<129>>, <<193>>, <<1>>,
           <<2>> }
Int1  == <<65, 5>>
Int2  == <<127, 129, 0>>            \* tag 63, denormalised 1
Blob0 == <<129, 0>>
Blob2 == <<130, 2, 7, 64>>
BlobL == <<131, 130, 0, 192, 0>>    \* denormalised length
Str1  == <<193>>
Enum2 == <<2, 9>>
Exc2  == <<128, 2, 104, 255>>
Exc0  == <<128, 0>>

\* claimed lengths near 2^63 and 2^64
Eighties(n) == [k \in 1..n |-> 128]
Ffs(n) == [k \in 1..n |-> 255]
HugeLens == { <<131>> \o Ffs(8) \o <<127>>, <<131>> \o Eighties(9) \o <<1>>,
          <<131, 129>> \o Eighties(8) \o <<1>>, <<128, 130>> \o Eighties(8) \o <<1>>,
          <<131, 235>> \o Ffs(8) \o <<1>>, <<131>> \o Ffs(9) \o <<1>> }

Documents ==
  CASE Profile = "read"   -> Docs(Bytes, Size) \cup
                             Docs({Int1, Blob2, Str1, Enum2, <<0>>, <<64>>,
                                   <<192>>, Exc2}, Size - 1)
    [] Profile = "skip"   -> Docs({Int1, Blob2, Str1, Enum2, <<0>>, <<192>>},
                                  Size)
    [] Profile = "blob"   -> { <<130, 3, 7, 64, 9>> \o t :
                                 t \in {<<>>, <<65, 1>>} }
                             \cup { <<129, 0, 0>>, <<130, 1, 5, 64>>,
                                    <<128, 2, 65, 66, 0>>, <<130, 4, 1, 2>>,
                                    <<131, 2, 1>> }
    [] Profile = "eof"    -> UNION { Heads(d) :
                               d \in Docs({Int2, BlobL, Enum2, <<64>>, Exc2},
                                          Size) }
                             \cup { p \o x \o t : p \in {<<>>, Int1, Str1},
                                      x \in HugeLens, t \in {<<>>, <<1, 2>>} }
    [] Profile = "inband" -> Docs({Int1, <<192>>, Exc0, Exc2, Blob2, Str1,
                                   <<0>>}, Size)
    [] Profile = "pos"    -> { <<>>, <<65, 5, 0>>, <<192, 129, 2, 1, 2, 0>>,
                               <<64>>, <<129, 1>>, <<128, 1, 7>>, <<65>>,
                               <<65, 128, 1>> } \cup HugeLens
    [] Profile \in {"write", "wblob"} -> { <<>> }

\* The logical position at which a stream starts need not be the offset of
\* the data in what lies below.
Starts == IF Profile = "pos"
          THEN { SubN(MAX64, N(k)) : k \in 0..Size } \cup { Zero, N(5) }
          ELSE { Zero }
StartsOf(d) == CASE Profile = "wblob" -> { N(5) }
                 [] Profile \in {"pos", "write"} -> Starts
                 [] OTHER -> IF Len(d) % 2 = 1 THEN { N(300) } ELSE Starts
Graces == IF Profile = "eof" THEN BOOLEAN ELSE { FALSE }

---------------------------------------------------------------------------
(* Menus of operations.                                                    *)
O(name)    == [o |-> name]
NatArg(n)  == N(n)
Neg(n)     == <<n > 0, N(n)>>
Pos(n)     == <<FALSE, N(n)>>

ReadMenu == { O("ne"), O("nf"), O("skip"), O("commit"), O("look"),
              [o |-> "skip_up", d |-> 0], [o |-> "skip_up", d |-> 1],
              [o |-> "skip_up", d |-> 2] }
FieldMenu == { O("enter"), [o |-> "leave", skip |-> TRUE],
               [o |-> "leave", skip |-> FALSE] }
AsMenu == { [o |-> "as", t |-> t] :
              t \in {"u8", "i16", "bool", "null", "blob", "struct", "enum"} }
BlobReadMenu ==
     { [o |-> "b_read", k |-> k] : k \in {0, 1, 4} }
\cup { [o |-> "b_exact", k |-> k] : k \in {0, 2, 3, 4} }
\cup { [o |-> "b_xread", k |-> 2] }
\cup { [o |-> "b_fully", max |-> m] : m \in {Zero, N(2), N(3), MAX64} }
\cup { [o |-> "b_trunc", max |-> m] : m \in {Zero, One, N(3), MAX64} }
\cup { O("b_slice"), O("b_slicemut"), O("b_ext"), O("b_look") }
\cup { [o |-> "b_fill", k |-> k] : k \in {0, 1, 9} }
\cup { [o |-> "b_seek", w |-> "start", u |-> u] :
         u \in {Zero, One, N(3), N(4), MAX64} }
\cup { [o |-> "b_seek", w |-> "end", i |-> i] :
         i \in {Neg(0), Neg(1), Neg(3), Neg(4), Pos(1), <<TRUE, I63>>} }
\cup { [o |-> "b_seek", w |-> "cur", i |-> i] :
         i \in {Neg(0), Neg(1), Neg(2), Pos(1), Pos(2), Pos(4),
                <<TRUE, I63>>, <<FALSE, I63m1>>} }
WriteMenu ==
     { [o |-> "w_int", tag |-> t, t |-> "u64", u |-> u] :
         t \in {1, 63}, u \in {Zero, N(127), N(128), MAX64} }
\cup { [o |-> "w_int", tag |-> 2, t |-> "i64", i |-> i] :
         i \in {Pos(0), Neg(1), Pos(64), <<TRUE, I63>>, <<FALSE, I63m1>>} }
\cup { [o |-> "w_struct", tag |-> t] : t \in {1, 63} }
\cup { [o |-> "w_enum", tag |-> 3, u |-> u] : u \in {Zero, N(300)} }
\cup { O("w_eos"), O("w_eod"), O("w_pad") }
\cup { [o |-> "w_align", a |-> a] : a \in {0, 2, 3} }
\cup { [o |-> "w_data", tag |-> 4, d |-> d] : d \in {<<>>, <<64, 0>>} }
\cup { [o |-> "w_xdata", d |-> d] : d \in {<<>>, <<33>>} }
\cup { [o |-> "w_int", tag |-> t, t |-> "u8", u |-> Zero] : t \in {0, 64} }
\cup { [o |-> "w_struct", tag |-> t] : t \in {0, 64, 255} }
\cup { [o |-> "w_enum", tag |-> 128, u |-> Zero] }
\cup { [o |-> "w_data", tag |-> 0, d |-> <<1>>] }
BlobWriteMenu ==
     { [o |-> "w_alloc", tag |-> 1, u |-> u] : u \in {Zero, One, N(3)} }
\cup { [o |-> "w_xalloc", u |-> N(2)], [o |-> "w_dyn", tag |-> 2],
       O("w_xdyn"), O("w_eos"), O("commit"), O("look") }
\cup { [o |-> "w_data", tag |-> 3, d |-> <<9>>] }
\cup { [o |-> "b_wall", d |-> d] : d \in {<<>>, <<11>>, <<12, 13>>} }
\cup { [o |-> "b_write", d |-> <<1, 2, 3, 4>>] }
\cup { [o |-> "b_xwrite", d |-> <<21, 22>>], [o |-> "x_write", d |-> <<192>>] }
\cup { [o |-> "b_seek", w |-> "start", u |-> u] : u \in {Zero, One} }
\cup { [o |-> "b_seek", w |-> "cur", i |-> i] :
         i \in {Neg(1), Pos(1), <<FALSE, I63m1>>} }
\cup { [o |-> "b_seek", w |-> "end", i |-> Neg(1)] }
\cup { [o |-> "x_back", k |-> k] : k \in {1, 11} }

Menu ==
  CASE Profile = "read" -> ReadMenu \cup AsMenu \cup { [o |-> "b_read", k |-> 1] }
    [] Profile = "skip" -> ReadMenu \cup FieldMenu \cup { [o |-> "b_read", k |-> 1] }
    [] Profile = "blob"   -> BlobReadMenu \cup { O("ne"), O("nf"), O("look") }
    [] Profile = "eof"    -> { O("ne"), O("nf"), O("skip"), O("clear_eof"),
                               O("commit"), [o |-> "skip_up", d |-> 0],
                               [o |-> "b_fully", max |-> MAX64],
                               [o |-> "b_exact", k |-> 1] }
    [] Profile = "inband" -> { O("ne"), O("nf"), O("skip"), O("look"),
                               [o |-> "b_exact", k |-> 1] }
    [] Profile = "pos"    -> { O("ne"), O("nf"), O("commit"), O("look"),
                               O("w_eos"), [o |-> "w_align", a |-> 3],
                               [o |-> "w_int", tag |-> 1, t |-> "u64", u |-> N(200)],
                               [o |-> "w_data", tag |-> 1, d |-> <<1, 2>>],
                               [o |-> "w_alloc", tag |-> 1, u |-> One],
                               [o |-> "w_dyn", tag |-> 1],
                               [o |-> "b_wall", d |-> <<7>>],
                               [o |-> "x_read", k |-> 2],
                               [o |-> "x_back", k |-> 3],
                               [o |-> "x_write", d |-> <<192, 64>>],
                               [o |-> "b_fully", max |-> MAX64],
                               [o |-> "b_seek", w |-> "end", i |-> Neg(0)],
                               [o |-> "reset_pos", u |-> MAX64],
                               [o |-> "seek", w |-> "cur", i |-> Pos(0)],
                               [o |-> "seek", w |-> "start", u |-> One] }
    [] Profile = "write"  -> WriteMenu
    [] Profile = "wblob"  -> BlobWriteMenu

---------------------------------------------------------------------------
\* the element an operation writes
Written(op) ==
  CASE op.o = "w_int"    -> <<[k |-> "f", tag |-> op.tag, t |-> "i", n |-> IntArg(op)]>>
    [] op.o = "w_struct" -> <<[k |-> "f", tag |-> op.tag, t |-> "s", n |-> Zero]>>
    [] op.o = "w_enum"   -> <<[k |-> "f", tag |-> op.tag, t |-> "e", n |-> op.u]>>
    [] op.o = "w_eos"    -> <<R("eos")>>
    [] op.o = "w_eod"    -> <<R("eod")>>
    [] op.o = "w_data"   -> <<[k |-> "f", tag |-> op.tag, t |-> "b", d |-> op.d]>>
    [] op.o = "w_xdata"  -> <<[k |-> "x", d |-> op.d]>>
    [] OTHER -> <<>>     \* padding is not recorded

\* An exploration is split over Shards processes of TLC with one worker each
\* (several workers in one process would share the values of the
\* specification, which TLC normalises in place while others read them).
InShard(q) == FoldLeft(LAMBDA a, x : (3 * a + x) % 1009, 0, q) % Shards = Shard
\* few documents: split by the first operation
ByDoc == Cardinality(Documents) > 2 * Shards
MenuSeq == SetToSeq(Menu)
First == IF ByDoc THEN Menu
         ELSE { MenuSeq[k] : k \in { n \in 1..Len(MenuSeq) : n % Shards = Shard } }

Prefix == (IF s.gr THEN <<[o |-> "graceful", v |-> TRUE]>> ELSE <<>>)
Init ==
  /\ \E d \in Documents, g \in Graces : \E p \in StartsOf(d) :
       /\ ByDoc => InShard(d)
       /\ s = [InitState(d, FALSE) EXCEPT !.pos = p, !.gr = g]
       /\ init = <<d, p, g>>
       /\ base = p
  /\ h = <<>> /\ el = <<>>

StartOps == (IF init[2] = Zero THEN <<>> ELSE <<[o |-> "set_pos", u |-> init[2]]>>)
            \o (IF init[3] THEN <<[o |-> "graceful", v |-> TRUE]>> ELSE <<>>)

EmitHist(ops) == IF Emitting THEN PrintT("H " \o ToJson([b |-> init[1], ops |-> StartOps \o ops]))
              ELSE TRUE
Next ==
  /\ ~s.dd
  /\ Len(h) < Depth
  /\ \E op \in IF h = <<>> THEN First ELSE Menu :
       /\ op.o \in {"skip"} => s.h # "none"
       /\ \E o \in Outcomes(s, op) :
            /\ s' = o.s
            /\ h' = Append(h, op)
            /\ init' = init
            /\ base' = IF o.s.dd \/ o.r.k = "err" THEN base
                       ELSE IF op.o = "reset_pos" THEN SubN(op.u, Commit(s).s.ip)
                       ELSE IF op.o = "seek" THEN Zero ELSE base
            /\ el' = IF o.r.k = "ok" THEN el \o Written(op) ELSE el
            /\ EmitHist(Append(h, op))

Spec == Init /\ [][Next]_vars
View == <<s, init, base, el>>

---------------------------------------------------------------------------
(* Properties of the machine.                                              *)

\* all elements from state t on, ending in an end of document or an error
RECURSIVE Elems(_)
Elems(t) ==
  LET e == NextElem(t)
  IN IF e.c # "ok" THEN <<[k |-> "err", c |-> e.c]>>
     ELSE IF e.k = "eod" THEN <<RElem(e)>>
     ELSE <<RElem(e)>> \o Elems([e.s EXCEPT !.h = "none"])
\* the field-level view of the same
RECURSIVE Fields(_)
Fields(t) ==
  LET o == CHOOSE x \in ReadNF(t) : x.r.k # "err" \/ x.r.c = "exc" \/ x.s.dd
  IN IF o.s.dd THEN <<[k |-> "err", c |-> o.r.c]>>
     ELSE IF o.r.k = "none" /\ o.s.eof THEN <<R("none")>>
     ELSE <<IF o.r.k = "err" THEN R("x") ELSE o.r>> \o Fields([o.s EXCEPT !.h = "none"])
NoPad(q) == SelectSeq(q, LAMBDA e : e.k # "p")
ToField(e) == CASE e.k \in {"eos", "eod"} -> R("none") [] e.k = "x" -> R("x")
                [] OTHER -> e
\* C02/C19: fields are the elements with padding dropped, in the same places
FieldView ==
  (h = <<>> /\ s.pos = Zero) =>
     LET a == NoPad(Elems(s))
         b == Fields(s)
         n == Len(a)
         Same(x, y) == /\ Len(x) = Len(y)
                       /\ \A k \in 1..Len(x) :
                            IF x[k].k = "err" THEN y[k].k = "err"
                            ELSE y[k] = ToField(x[k])
     IN \/ Same(a, b)
        \* an exception that is cut off may be reported as just that
        \/ /\ n >= 2 /\ a[n].k = "err" /\ a[n - 1].k = "x"
           /\ Same(SubSeq(a, 1, n - 2) \o <<a[n]>>, b)

\* C07: what a cut-off document decodes to is what the whole one decodes to,
\* up to an error (or, with graceful end, an end) in place of the rest
IsBegin(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
Cut ==
  (h = <<>> /\ Profile \in {"read", "eof", "skip"}) =>
     LET whole == Elems(s)
     IN \A n \in 0..(Len(s.b) - 1) :
          LET part == Elems([s EXCEPT !.b = SubSeq(s.b, 1, n)])
              last == part[Len(part)]
          IN \/ part = whole
             \/ /\ last.k = "err" \/ (s.gr /\ last.k = "eod")
                \* a blob whose body is cut off is noticed one element later
                /\ IsBegin(SubSeq(part, 1, Len(part) - 1), whole)

\* C07: the end is sticky
Sticky == (s.eof /\ ~s.dd) =>
            LET e == NextElem(s)
            IN e.c = "ok" /\ e.k = "eod" /\ e.s.ip = s.ip /\ e.s.pos = s.pos

\* C06: the depth is the number of ends of structs that lead to the top
RECURSIVE Closing(_, _)
Closing(t, n) ==
  IF n = 0 THEN t.dep = 0
  ELSE t.dep > 0 /\
       LET e == NextElem([t EXCEPT !.b = <<SpEos>>, !.ip = Zero,
                                   !.pos = Zero, !.cm = "none"])
       IN e.c = "ok" /\ Closing(e.s, n - 1)
DepthOk == (~s.dd /\ ~s.eof) => Closing(s, s.dep)
\* C06: skipping to depth d stops right after the first element that leads there
RECURSIVE FirstAt(_, _)
FirstAt(t, d) ==
  IF t.dep <= d THEN [c |-> "ok", p |-> t.pos]
  ELSE LET e == NextElem(t)
       IN IF e.c # "ok" THEN [c |-> "err", p |-> Zero]
          ELSE FirstAt([e.s EXCEPT !.h = "none"], d)
SkipOk == (~s.dd) => \A d \in 0..2 :
            LET e == SkipUp(s, d)
                f == FirstAt([s EXCEPT !.h = "none"], d)
            IN IF e.c = "ok" THEN f.c = "ok" /\ f.p = e.s.pos ELSE f.c # "ok"

\* C03: wherever the client is in a blob, parsing resumes right after it
ResumeOk == (~s.dd /\ s.cm = "read") =>
              LET c == Commit(s) IN c.c = "ok" => c.s.pos = s.be
\* C08: the logical position follows the underlying one
PosOk == (~s.dd) => s.pos = AddN(s.ip, base)

\* C04: everything written reads back
RECURSIVE ReadBack(_, _)
ReadBack(t, q) ==
  LET e  == NextNonPad([t EXCEPT !.eof = FALSE])
  IN IF q = <<>> THEN e.c # "ok" /\ e.s.ip = N(Len(t.b))
     ELSE /\ e.c = "ok"
          /\ e.k = q[1].k
          /\ e.k = "f" => /\ e.tag = q[1].tag /\ e.t = q[1].t
                          /\ e.t \in {"i", "e"} => e.n = q[1].n
          /\ (e.k = "x" \/ e.t = "b") => Take(e.s, ToInt(Rem(e.s))) = q[1].d
          /\ ReadBack([e.s EXCEPT !.h = "none"], SubSeq(q, 2, Len(q)))
RoundTrip == (Profile = "write" /\ ~s.dd) => ReadBack(InitState(s.b, FALSE), el)

\* C05: once committed, the bytes parse as blobs of exactly their lengths
RECURSIVE Parses(_)
Parses(t) == LET e == NextElem(t)
             IN IF e.c = "ok" THEN Parses([e.s EXCEPT !.eof = FALSE, !.h = "none"])
                ELSE e.c = "eof" /\ e.s.ip = N(Len(t.b)) /\ e.s.cm = "none"
\* (moving the underlying stream back overwrites what is there)
CommittedOk == (Profile = "wblob" /\ ~s.dd /\ \A k \in 1..Len(h) :
                  h[k].o # "x_back") =>
                 LET c == Commit(s)
                 IN c.c = "ok" /\ Small(c.s.ip) =>
                      \* what was skipped over without being written is
                      \* whatever the medium holds there, here zeros
                      LET b == c.s.b
                          gap == ToInt(c.s.ip) - Len(b)
                      IN Parses(InitState(IF gap <= 0 THEN b
                           ELSE b \o [k \in 1..gap |-> 0], FALSE))
FixedOk == (Profile = "wblob" /\ ~s.dd /\ s.cm = "fixed" /\ \A k \in 1..Len(h) :
                  h[k].o # "x_back") =>
                 LeN(N(Len(s.b)), s.be)

Inv == TypeOK(s) /\ BlobWindow(s)
=============================================================================
