------------------------------- MODULE Mixed --------------------------------
(***************************************************************************)
(* Both layers on one stream.  To the operations of module Stream are      *)
(* added, between them, operations of the typed layer (of module Deser):   *)
(*   t_de   [t, zc, cfg]     a message, or what is left of the struct the  *)
(*                           stream is in, is deserialised                 *)
(*   t_rec  [.., d]          as well; and after an error which is none of  *)
(*                           the stream what could not be made sense of is *)
(*                           skipped, up to depth d                        *)
(*   t_elem [t, zc, cfg]     the field in hand is                          *)
(*   t_ser  [t, v, m, tag]   a value is written: as a message, a body, a   *)
(*                           field or an element                           *)
(* An outcome of the first three is a machine m of module Deser (what was  *)
(* read, or the error) and the state s the stream is then in.              *)
(***************************************************************************)
EXTENDS Deser

Typed(op) == op.o \in {"t_de", "t_rec", "t_elem"}
TOut(m, s) == [m |-> m, s |-> s]
Lost(s) == Kill([s EXCEPT !.fb = "free"])

TypedOutcomes(s, op) ==
  IF op.o = "t_elem"
  THEN IF s.h = "none" \/ s.ht = "x" THEN {}
       \* (what a blob counts as which was used before is left open)
       ELSE IF s.ht = "b" /\ s.be # AddN(s.pos, s.hv)
       THEN { TOut(Start0(Lost(s), op.cfg), Lost(s)) }
       ELSE LET e == [t |-> s.ht, n |-> s.hv, pos |-> s.hp]
                m == Elem(op.t, Start0(s, op.cfg), <<>>, e, op.zc)
                t == [m.s EXCEPT !.h = "none"]
            IN IF ~m.ok THEN { TOut(m, Kill(t)) }
               ELSE { TOut(m, t) } \cup
                    \* (whether borrowing consumes the blob is left open)
                    (IF op.zc /\ t.cm = "read" /\ t.pos = s.pos
                        /\ ~LtN(N(Avail(t)), Rem(t))
                     THEN { TOut(m, AdvN(t, Rem(t))) } ELSE {})
  ELSE IF Commit(s).c = "any"
  THEN { TOut(Start0(Lost(s), op.cfg), Lost(s)) }
  ELSE LET m == Deserialise(op.t, s, op.cfg, op.zc)
       IN IF m.ok THEN { TOut(m, m.s) }
          ELSE IF op.o = "t_rec" /\ m.e.c # "stream"
          THEN LET k == SkipUp(m.s, op.d)
               IN { TOut(m, IF k.c = "ok" THEN k.s ELSE Kill(k.s)) }
          ELSE { TOut(m, Kill(m.s)) }

SerBytes(op) == CASE op.m \in {"msg", "body"} -> SerBody(op.t, op.v)
                  [] op.m = "field" -> SerField(op.t, op.v, op.tag)
                  [] op.m = "elem"  -> SerElem(op.t, op.v, op.tag)
SerOutcomes(s, op) ==
  LET d == SerBytes(op)
  IN IF ~Writable(d)
     THEN { Out(R("panic"), Lost(s)) } \cup
          \* (or what is pending is refused before that is found out)
          (IF Commit(s).c = "ok" THEN {} ELSE CFail(Commit(s)))
     ELSE IF d = <<>> THEN { Out(Ok, [s EXCEPT !.h = "none"]) }
     ELSE { [o EXCEPT !.s.h = "none"] : o \in WriteOut(s, d) }
=============================================================================
