------------------------------- MODULE MCCopy --------------------------------
(***************************************************************************)
(* Explores copying: every sequence of at most Depth operations on a pair  *)
(* of streams, over every document of a set.  With Emitting, prints the    *)
(* histories to be performed on the real library.                          *)
(***************************************************************************)
EXTENDS Copy, Json, SequencesExt

CONSTANTS Depth, Size, Emitting, Shard, Shards

VARIABLES p,     \* the pair of streams
          h,     \* operations so far
          init,  \* the document read from
          out    \* what the destination must decode to: elements written
vars == <<p, h, init, out>>

---------------------------------------------------------------------------
Cat(q) == LET RECURSIVE C(_)
              C(k) == IF k = 0 THEN <<>> ELSE C(k - 1) \o q[k]
          IN C(Len(q))
Tokens == { <<65, 133, 0>>,            \* a denormalised integer
            <<130, 130, 0, 7, 64>>,    \* a blob, length denormalised
            <<129, 3, 1, 2>>,          \* ... one byte too short, at the end
            <<193>>, <<2, 172, 2>>, <<0>>, <<64>>, <<192>>,
            <<128, 1, 255>>, <<191, 0>> }
Docs == { Cat(q) : q \in UNION { [1..k -> Tokens] : k \in 0..Size } }

S(r) == [at |-> "s"] @@ r
D(r) == [at |-> "d"] @@ r
Menu == { S([o |-> "ne"]), S([o |-> "nf"]),
          [at |-> "c", o |-> "copy", f |-> FALSE],
          [at |-> "c", o |-> "copy", f |-> TRUE],
          S([o |-> "b_exact", k |-> 1]), S([o |-> "skip_up", d |-> 0]),
          S([o |-> "b_seek", w |-> "start", u |-> Zero]),
          D([o |-> "w_pad"]), D([o |-> "commit"]), D([o |-> "w_eos"]),
          D([o |-> "w_int", tag |-> 9, t |-> "u64", u |-> N(200)]) }

\* what an element read from s decodes to in the copy
Elem(q) == [e |-> [q.e EXCEPT !.k = IF q.e.k = "f" THEN "f" ELSE @],
            d |-> IF IsBlob(q.e) THEN Take(q.s, ToInt(q.s.bl)) ELSE <<>>]
Written(q, op) ==
  CASE op.o = "copy"  -> <<Elem(q)>>
    [] op.o = "w_pad" -> <<[e |-> R("p"), d |-> <<>>]>>
    [] op.o = "w_eos" -> <<[e |-> R("eos"), d |-> <<>>]>>
    [] op.o = "w_int" -> <<[e |-> [k |-> "f", tag |-> 9, t |-> "i", n |-> N(200)],
                            d |-> <<>>]>>
    [] OTHER -> <<>>

\* An exploration is split over Shards processes of TLC with one worker each
\* (several workers in one process would share the values of the
\* specification, which TLC normalises in place while others read them).
InShard(q) == FoldLeft(LAMBDA a, x : (3 * a + x) % 1009, 0, q) % Shards = Shard

Init == /\ init \in Docs /\ InShard(init)
        /\ p = Pair(InitState(init, FALSE), InitState(<<>>, FALSE), NoElem)
        /\ h = <<>> /\ out = <<>>
\* source and destination are well and the copy is whole
Fine(q) == ~q.d.dd /\ (q.d.cm = "fixed" => q.d.pos = q.d.be)
Next ==
  /\ Len(h) < Depth /\ ~p.d.dd
  /\ \E op \in Menu :
       /\ op.at = "s" => ~p.s.dd
       /\ op.o \in BlobOps => p.s.h = "blob" /\ IsBlob(p.e)
       /\ op.o = "copy" => Holding(p) /\ ~p.s.dd
                           \* (of partly read blobs nothing is said)
                           /\ (IsBlob(p.e) => Rem(p.s) = p.s.bl)
       /\ \E o \in PairOutcomes(p, op) :
            /\ p' = o.p
            /\ h' = Append(h, op)
            /\ out' = IF o.r.k = "ok" /\ Fine(o.p) THEN out \o Written(p, op) ELSE out
            /\ init' = init
            /\ IF Emitting
               THEN PrintT("H " \o ToJson([b |-> init, ops |-> Append(h, op)]))
               ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<p, init, out>>

---------------------------------------------------------------------------
\* C16: what was written decodes to the elements that were copied
RECURSIVE Decodes(_, _)
Decodes(t, q) ==
  LET e == NextElem([t EXCEPT !.eof = FALSE])
  IN IF q = <<>> THEN e.c = "eof" /\ e.s.ip = N(Len(t.b))
     ELSE /\ e.c = "ok" /\ e.k = q[1].e.k
          /\ (e.k = "f" => /\ e.tag = q[1].e.tag /\ e.t = q[1].e.t
                           /\ e.n = q[1].e.n)
          /\ (e.k = "x" => e.n = q[1].e.n)
          /\ (e.s.h = "blob" => Take(e.s, ToInt(e.n)) = q[1].d)
          /\ Decodes([e.s EXCEPT !.h = "none"], SubSeq(q, 2, Len(q)))
Faithful == Fine(p) => Decodes(InitState(p.d.b, FALSE), out)
\* ... canonically: every integer as short as possible
RECURSIVE Size1(_)
Size1(q) ==
  IF q = <<>> THEN 0
  ELSE Size1(SubSeq(q, 2, Len(q))) + Len(q[1].d) +
       (CASE q[1].e.k \in {"eos", "eod", "p"} -> 1
          [] q[1].e.k = "x" -> 1 + Len(EncVar(q[1].e.n))
          [] q[1].e.t = "s" -> 1
          [] OTHER -> 1 + Len(EncVar(q[1].e.n)))
Canonical == Fine(p) => Len(p.d.b) = Size1(out)
\* C16: a blob that is cut off is noticed by the next operation, at the latest
NotSilent == (~p.d.dd /\ p.d.cm = "fixed" /\ p.d.pos # p.d.be)
               => Commit(p.d).c = "incomplete"
\* both streams stand right behind the element copied
Behind == (p.e.k # "no" /\ h # <<>> /\ h[Len(h)].o = "copy" /\ Fine(p) /\ ~p.s.dd)
            => /\ Commit(p.s).c = "ok" => LeN(p.s.pos, Commit(p.s).s.pos)
               /\ IsBlob(p.e) => p.s.pos = p.s.be
               /\ p.d.pos = N(Len(p.d.b))
Inv == TypeOK(p.s) /\ TypeOK(p.d) /\ BlobWindow(p.s) /\ BlobWindow(p.d)
=============================================================================
