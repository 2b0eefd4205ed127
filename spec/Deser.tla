------------------------------- MODULE Deser --------------------------------
(***************************************************************************)
(* Deserialisation: from the state of a stream (module Stream), a type and *)
(* a configuration to a value or an error.                                 *)
(*                                                                         *)
(* One deserialisation is one step of the machine a client sees; inside it *)
(* is a recursive descent which threads a record m:                        *)
(*   s   the state of the stream         g   the configuration             *)
(*   bl  what is left of the blob limit  co  ... of the collection limit   *)
(*   ok  no error so far                 e   the error                     *)
(*   v   the result of the last part                                       *)
(* A configuration is [rec, strict, mb, mc].  An error is [c, se, path,    *)
(* x]: its class, for class "stream" the set of the classes of the stream  *)
(* error it may be, where it happened, and further details.  A place is a  *)
(* sequence of <<name, offset>>, outermost first.                          *)
(***************************************************************************)
EXTENDS Schema

NoErr == [c |-> "", se |-> {}, path |-> <<>>, x |-> <<>>]
Start0(s, g) == [s |-> s, g |-> g, bl |-> g.mb, co |-> g.mc, ok |-> TRUE,
                 e |-> NoErr, v |-> <<>>]

Bad(m, ctx, c, x) ==
  [m EXCEPT !.ok = FALSE, !.e = [c |-> c, se |-> {}, path |-> ctx, x |-> x]]
BadS(m, ctx, se, x) ==
  [m EXCEPT !.ok = FALSE,
            !.e = [c |-> "stream", se |-> se, path |-> ctx, x |-> x]]
Val(m, v) == [m EXCEPT !.v = v]

CanPush(m, ctx) == Len(ctx) < m.g.rec
Sub(ctx, name, pos) == Append(ctx, <<name, pos>>)
TagName(t) == IF t < 10 THEN "0" \o ToString(t) ELSE ToString(t)

\* the next field of the innermost struct: k = "f", "end" or "bad"
NextField(m, ctx) ==
  LET e == NextNonPad(m.s)
  IN IF e.c # "ok" THEN [k |-> "bad", e |-> e,
                         m |-> BadS(m, ctx, EClasses(e.c), <<>>)]
     ELSE IF e.k = "f" THEN [k |-> "f", e |-> e, m |-> [m EXCEPT !.s = e.s]]
     ELSE IF e.k = "x"
          THEN LET want == MinI(e.n, 256)
                   n    == Min2(want, Avail(e.s))
               IN [k |-> "bad", e |-> e,
                   m |-> BadS(m, ctx, {"exc"} \cup
                                      IF n < want THEN {"trunc", "eof"}
                                      ELSE {}, <<Lossy(Take(e.s, n))>>)]
     ELSE [k |-> "end", e |-> e, m |-> [m EXCEPT !.s = e.s]]

\* a field nobody asked for
Unknown(m, ctx, e) ==
  IF m.g.strict THEN Bad(m, ctx, "unkf", <<e.tag, e.pos>>)
  ELSE IF e.t \in {"s", "e"}
       THEN LET r == SkipUp(m.s, e.dep)
            IN IF r.c = "ok" THEN [m EXCEPT !.s = r.s]
               ELSE BadS(m, ctx, EClasses(r.c), <<>>)
       ELSE m

WrongType(m, ctx, e, want) == BadS(m, ctx, {"type"}, <<want, KindName(e.t)>>)
OutOfRange(m, ctx) == BadS(m, ctx, {"range"}, <<>>)

\* the bytes of the blob just opened
BlobThere(m, e) == Small(e.n) /\ ToInt(e.n) <= Avail(m.s)
BlobBytes(m, e) == Take(m.s, ToInt(e.n))
Consumed(m, e)  == [m EXCEPT !.s = AdvN(m.s, e.n)]

RECURSIVE LoopTurn(_, _, _, _), LoopN(_, _, _, _, _), UnkTurn(_, _, _, _), UnkN(_, _, _, _, _)
RECURSIVE Body(_, _, _, _), Elem(_, _, _, _, _), Field(_, _, _, _, _, _),
          Frame(_, _, _, _), Loop(_, _, _, _, _, _), Fins(_, _, _, _, _, _, _),
          UnkBody(_, _, _, _, _), UnkVal(_, _, _, _, _), UnitElem(_, _),
          UnitBody(_, _, _)

---------------------------------------------------------------------------
(* A value that takes one field.                                           *)
Elem(t, m, ctx, e, zc) ==
  LET r == Res(t, zc)
      y == r.y
  IN
  CASE y.k \in {"int", "bool", "char", "null"} ->
         IF e.t # "i" THEN WrongType(m, ctx, e, "Integer")
         ELSE (CASE y.k = "int" ->
                     IF y.s THEN LET x == UnZigZag(e.n)
                                 IN IF InSigned(x, y.b) THEN Val(m, x)
                                    ELSE OutOfRange(m, ctx)
                     ELSE IF InUnsigned(e.n, y.b) THEN Val(m, e.n)
                          ELSE OutOfRange(m, ctx)
                [] y.k = "bool" -> IF e.n = One THEN Val(m, TRUE)
                                   ELSE IF e.n = Zero THEN Val(m, FALSE)
                                   ELSE OutOfRange(m, ctx)
                [] y.k = "char" -> IF ~InUnsigned(e.n, 32)
                                   THEN OutOfRange(m, ctx)
                                   ELSE IF IsScalar(e.n) THEN Val(m, e.n)
                                   ELSE Bad(m, ctx, "msg", <<>>)
                [] y.k = "null" -> IF e.n = Zero THEN Val(m, <<>>)
                                   ELSE OutOfRange(m, ctx))
    [] y.k \in {"bytes", "str"} ->
         IF e.t # "b" THEN WrongType(m, ctx, e, "Blob")
         ELSE IF LtN(m.bl, e.n) THEN Bad(m, ctx, "maxb", <<>>)
         ELSE IF ~BlobThere(m, e) THEN BadS(m, ctx, {"trunc", "eof"}, <<>>)
         ELSE LET d == BlobBytes(m, e)
                  w == Consumed([m EXCEPT !.bl = SubN(@, e.n)], e)
              IN IF y.k = "str" /\ ~ValidUtf8(d) THEN Bad(w, ctx, "inv", <<>>)
                 ELSE Val(w, [o |-> -1, d |-> d])
    [] y.k \in {"rbytes", "rstr"} ->
         IF e.t # "b" THEN WrongType(m, ctx, e, "Blob")
         ELSE IF ~BlobThere(m, e) THEN BadS(m, ctx, {"trunc"}, <<>>)
         ELSE LET d == BlobBytes(m, e)
              IN IF y.k = "rstr" /\ ~ValidUtf8(d) THEN Bad(m, ctx, "inv", <<>>)
                 ELSE Val(m, [o |-> ToInt(m.s.ip), d |-> d])
    [] y.k = "barr" ->
         IF e.t # "b" THEN WrongType(m, ctx, e, "Blob")
         ELSE IF e.n # N(y.n) THEN Bad(m, ctx, "msg", <<>>)
         ELSE IF ~BlobThere(m, e) THEN BadS(m, ctx, {"eof"}, <<>>)
         ELSE Val(Consumed(m, e), BlobBytes(m, e))
    [] y.k = "unit" ->
         IF e.t # "s" THEN WrongType(m, ctx, e, "Struct") ELSE UnitElem(m, ctx)
    [] y.k \in Repeated \cup {"opt", "map"} ->
         IF e.t # "s" THEN WrongType(m, ctx, e, "Struct")
         ELSE Body(r.t, m, ctx, r.zc)
    [] y.k = "struct" ->
         IF y.sp = "del"
         THEN IF ~CanPush(m, ctx) THEN Bad(m, ctx, "rec", <<>>)
              ELSE Elem(y.spt, m, Sub(ctx, y.spn, e.pos), e, r.zc)
         ELSE IF e.t # "s" THEN WrongType(m, ctx, e, "Struct")
              ELSE Body(r.t, m, ctx, r.zc)
    [] y.k = "enum" ->
         IF e.t # "e" THEN WrongType(m, ctx, e, "Enum")
         ELSE LET ks == { k \in 1..Len(y.v) : y.v[k].d = e.n }
              IN IF ks = {} /\ Len(y.ca) = 0 THEN Bad(m, ctx, "unkv", <<e.n>>)
                 ELSE LET w == Frame(IF ks # {} THEN y.v[CHOOSE k \in ks : TRUE]
                                     ELSE y.ca[1], m, ctx, r.zc)
                      IN IF w.ok THEN Val(w, <<e.n, w.v>>) ELSE w
    [] y.k = "unk" ->
         IF e.t # "s" THEN WrongType(m, ctx, e, "Struct")
         ELSE UnkBody(y.cow, m, <<>>, ctx, r.zc)
    [] y.k = "unkf" -> UnkVal(y.cow, m, ctx, e, r.zc)

---------------------------------------------------------------------------
(* A field of a composite: it may come more than once.  a is what has been *)
(* accumulated for it, a sequence.                                         *)
OneMore(w, a) == IF w.ok THEN Val(w, Append(a, w.v)) ELSE w
Collect(m, ctx) == IF m.co < 1 THEN Bad(m, ctx, "maxc", <<>>)
                   ELSE [m EXCEPT !.co = @ - 1]
Twice(m, ctx) == Bad(m, ctx, "many", <<One>>)

\* a with the pair p put in; the key of an equal one stays
PutPair(tk, a, p) ==
  LET is == { i \in 1..Len(a) : VEq(tk, a[i][1], p[1], FALSE) }
  IN IF is = {} THEN Append(a, p)
     ELSE [a EXCEPT ![CHOOSE i \in is : TRUE] = <<@[1], p[2]>>]

Field(t, a, m, ctx, e, zc) ==
  LET r == Res(t, zc)
      y == r.y
  IN
  CASE y.k = "bytes" \/ (y.k = "barr" /\ ~y.large) ->
         LET w == Elem(r.t, m, ctx, e, r.zc)
         IN IF Len(a) > 0 THEN Twice(w, ctx) ELSE OneMore(w, a)
    [] y.k = "barr" /\ y.large ->
         LET w == Elem(r.t, m, ctx, e, r.zc)
         IN IF w.ok /\ Len(a) > 0 THEN Twice(w, ctx) ELSE OneMore(w, a)
    [] y.k = "arr" ->
         IF Len(a) >= y.n THEN Bad(m, ctx, "many", <<N(y.n)>>)
         ELSE OneMore(Elem(y.e, m, ctx, e, r.zc), a)
    [] y.k \in {"seq", "heap", "set", "map"} ->
         LET c == Collect(m, ctx)
             w == TLCEval(IF c.ok THEN Elem(y.e, c, ctx, e, r.zc) ELSE c)
         IN IF ~w.ok THEN w
            ELSE (CASE y.k = "set" ->
                        IF \E i \in 1..Len(a) : VEq(y.e, a[i], w.v, FALSE)
                        THEN Val(w, a) ELSE OneMore(w, a)
                   [] y.k = "map" ->
                        Val(w, PutPair(Types[y.e].f[1].t, a, w.v))
                   [] OTHER -> OneMore(w, a))
    [] y.k = "opt" ->
         IF Len(a) > 0 THEN Twice(m, ctx)
         ELSE OneMore(Elem(y.e, m, ctx, e, r.zc), a)
    [] y.k = "unk" ->
         LET c == Collect(m, ctx)
             w == TLCEval(IF c.ok THEN UnkVal(y.cow, c, ctx, e, r.zc) ELSE c)
         IN IF w.ok THEN Val(w, Append(a, <<e.tag, w.v>>)) ELSE w
    [] OTHER ->
         IF Len(a) > 0 THEN Twice(m, ctx)
         ELSE OneMore(Elem(r.t, m, ctx, e, r.zc), a)

\* all occurrences of the field have been seen
Fin(t, a, m, ctx, zc) ==
  LET y == Res(t, zc).y
  IN CASE y.k \in {"seq", "heap", "set", "map", "opt", "unk"} -> Val(m, a)
       [] y.k = "arr" ->
            IF Len(a) = y.n THEN Val(m, a)
            ELSE IF Len(a) = 0 THEN Bad(m, ctx, "req", <<>>)
            ELSE Bad(m, ctx, "few", <<N(y.n)>>)
       [] y.k = "barr" /\ y.n = 0 -> Val(m, <<>>)
       [] OTHER -> IF Len(a) = 0 THEN Bad(m, ctx, "req", <<>>)
                   ELSE Val(m, a[1])

---------------------------------------------------------------------------
(* The fields of a struct or variant up to its end.                        *)
Turns   == <<0, 0, 0, 1, 2, 3, 4>>
Sixteen == [i \in 1..16 |-> i]

FieldOf(F, tag) ==
  LET is == { i \in 1..Len(F.f) : F.f[i].tag = tag }
  IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE

\* One turn of a loop over fields: st.go says whether the loop goes on, and
\* when it does not st.m is its result.  The loops are folds over a supply of
\* turns (see Turns) rather than recursive operators, since TLC looks names up
\* in time proportional to the depth of the recursion.
LoopTurn(F, ctx, zc, st) ==
  LET x == TLCEval(NextField(st.m, ctx))
      e == x.e
  IN
  CASE x.k = "bad" -> [st EXCEPT !.go = FALSE, !.m = x.m]
    [] x.k = "end" -> [st EXCEPT !.go = FALSE,
                                 !.m = Fins(F, x.m, st.acc, st.ua, ctx, zc, 1)]
    [] x.k = "f" ->
         LET i == FieldOf(F, e.tag)
         IN IF i > 0
            THEN IF ~CanPush(x.m, ctx)
                 THEN [st EXCEPT !.go = FALSE, !.m = Bad(x.m, ctx, "rec", <<>>)]
                 ELSE LET w == TLCEval(Field(F.f[i].t, st.acc[i], x.m,
                                     Sub(ctx, F.f[i].name, e.pos), e, zc))
                      IN IF ~w.ok THEN [st EXCEPT !.go = FALSE, !.m = w]
                         ELSE [st EXCEPT !.m = w, !.acc[i] = w.v]
            ELSE IF F.sp = "unk"
            THEN IF ~CanPush(x.m, ctx)
                 THEN [st EXCEPT !.go = FALSE, !.m = Bad(x.m, ctx, "rec", <<>>)]
                 ELSE LET w == TLCEval(Field(F.spt, st.ua, x.m,
                                     Sub(ctx, TagName(e.tag), e.pos), e, zc))
                      IN IF ~w.ok THEN [st EXCEPT !.go = FALSE, !.m = w]
                         ELSE [st EXCEPT !.m = w, !.ua = w.v]
            ELSE LET w == TLCEval(Unknown(x.m, ctx, e))
                 IN IF ~w.ok THEN [st EXCEPT !.go = FALSE, !.m = w]
                    ELSE [st EXCEPT !.m = w]

\* up to 16^l turns
LoopN(l, F, ctx, zc, st) ==
  IF l = 0 THEN LoopTurn(F, ctx, zc, st)
  ELSE FoldLeft(LAMBDA s, i : IF s.go THEN LoopN(l - 1, F, ctx, zc, s) ELSE s,
                st, Sixteen)

Loop(F, m, acc, ua, ctx, zc) ==
  FoldLeft(LAMBDA s, l : IF s.go THEN LoopN(l, F, ctx, zc, s) ELSE s,
           [go |-> TRUE, m |-> m, acc |-> acc, ua |-> ua], Turns).m

\* acc[1..i-1] are final values already
Fins(F, m, acc, ua, ctx, zc, i) ==
  IF i <= Len(F.f)
  THEN IF ~CanPush(m, ctx) THEN Bad(m, ctx, "rec", <<>>)
       ELSE LET w == TLCEval(Fin(F.f[i].t, acc[i], m, Sub(ctx, F.f[i].name, m.s.pos), zc))
            IN IF ~w.ok THEN w
               ELSE Fins(F, w, [acc EXCEPT ![i] = w.v], ua, ctx, zc, i + 1)
  ELSE IF F.sp = "unk"
  THEN IF ~CanPush(m, ctx) THEN Bad(m, ctx, "rec", <<>>)
       ELSE Val(m, Append(acc, ua))
  ELSE IF \/ F.chk = "dur" /\ LeN(N(1000000000), acc[2])
          \/ F.chk = "ord" /\ ~LeN(acc[1], acc[2])
          \/ F.chk = "sum" /\ LtN(N(65535), AddN(acc[1], acc[2]))
       THEN Bad(m, ctx, "msg", <<>>)
  ELSE Val(m, acc)

Frame(F, m, ctx, zc) ==
  IF F.sp = "del"
  THEN IF ~CanPush(m, ctx) THEN Bad(m, ctx, "rec", <<>>)
       ELSE LET w == Body(F.spt, m, Sub(ctx, F.spn, m.s.pos), zc)
            IN IF w.ok THEN Val(w, <<w.v>>) ELSE w
  ELSE Loop(F, m, [i \in 1..Len(F.f) |-> <<>>], <<>>, ctx, zc)

\* anything that is no struct: a struct with the one field 1
Lone(t) == [f |-> <<[tag |-> 1, name |-> "top", t |-> t]>>, sp |-> "none",
            spn |-> "", spt |-> 0, chk |-> ""]

(* A whole message, or the remainder of a struct.                          *)
Body(t, m, ctx, zc) ==
  LET r == Res(t, zc)
      y == r.y
  IN CASE y.k = "struct" ->
            LET w == Frame(y, m, ctx, r.zc)
            IN IF w.ok /\ y.sp = "del" THEN Val(w, w.v[1]) ELSE w
       [] y.k = "unk"  -> UnkBody(y.cow, m, <<>>, ctx, r.zc)
       [] y.k = "unit" -> UnitBody(m, FALSE, ctx)
       [] OTHER ->
            LET w == Frame(Lone(r.t), m, ctx, r.zc)
            IN IF w.ok THEN Val(w, w.v[1]) ELSE w

---------------------------------------------------------------------------
(* Unknown fields.                                                         *)
UnkVal(tc, m, ctx, e, zc) ==
  CASE e.t = "i" -> Val(m, [k |-> "i", n |-> e.n])
    [] e.t = "b" ->
         LET w == Elem(tc, m, ctx, e, zc)
         IN IF w.ok THEN Val(w, [k |-> "b", o |-> w.v.o, d |-> w.v.d]) ELSE w
    [] e.t = "s" ->
         LET w == UnkBody(tc, m, <<>>, ctx, zc)
         IN IF w.ok THEN Val(w, [k |-> "s", f |-> w.v]) ELSE w
    [] e.t = "e" ->
         LET w == UnkBody(tc, m, <<>>, ctx, zc)
         IN IF w.ok THEN Val(w, [k |-> "e", n |-> e.n, f |-> w.v]) ELSE w
UnkTurn(tc, ctx, zc, st) ==
  LET x == TLCEval(NextField(st.m, ctx))
      e == x.e
  IN CASE x.k = "bad" -> [st EXCEPT !.go = FALSE, !.m = x.m]
       [] x.k = "end" -> [st EXCEPT !.go = FALSE, !.m = Val(x.m, st.us)]
       [] x.k = "f" ->
            IF ~CanPush(x.m, ctx)
            THEN [st EXCEPT !.go = FALSE, !.m = Bad(x.m, ctx, "rec", <<>>)]
            ELSE LET sub == Sub(ctx, TagName(e.tag), e.pos)
                     c   == Collect(x.m, sub)
                     w   == TLCEval(IF c.ok THEN UnkVal(tc, c, sub, e, zc) ELSE c)
                 IN IF ~w.ok THEN [st EXCEPT !.go = FALSE, !.m = w]
                    ELSE [st EXCEPT !.m = w, !.us = Append(@, <<e.tag, w.v>>)]
UnkN(l, tc, ctx, zc, st) ==
  IF l = 0 THEN UnkTurn(tc, ctx, zc, st)
  ELSE FoldLeft(LAMBDA s, i : IF s.go THEN UnkN(l - 1, tc, ctx, zc, s) ELSE s,
                st, Sixteen)
UnkBody(tc, m, us, ctx, zc) ==
  FoldLeft(LAMBDA s, l : IF s.go THEN UnkN(l, tc, ctx, zc, s) ELSE s,
           [go |-> TRUE, m |-> m, us |-> us], Turns).m

(* The unit value: an empty struct, but nobody minds what is in there.     *)
UnitElem(m, ctx) ==
  LET x == TLCEval(NextField(m, ctx))
  IN CASE x.k = "bad" -> x.m
       [] x.k = "end" -> Val(x.m, <<>>)
       [] x.k = "f" -> LET w == TLCEval(Unknown(x.m, ctx, x.e))
                       IN IF w.ok THEN UnitElem(w, ctx) ELSE w
UnitBody(m, had, ctx) ==
  LET x == TLCEval(NextField(m, ctx))
      e == x.e
  IN CASE x.k = "bad" -> x.m
       [] x.k = "end" -> Val(x.m, <<>>)
       [] x.k = "f" ->
            IF ~had /\ e.tag = 1 /\ e.t = "s"
            THEN IF ~CanPush(x.m, ctx) THEN Bad(x.m, ctx, "rec", <<>>)
                 ELSE LET w == UnitElem(x.m, Sub(ctx, "top", e.pos))
                      IN IF w.ok THEN UnitBody(w, TRUE, ctx) ELSE w
            ELSE LET w == TLCEval(Unknown(x.m, ctx, e))
                 IN IF w.ok THEN UnitBody(w, had, ctx) ELSE w

---------------------------------------------------------------------------
\* deserialising a message of type t from stream state s
Deserialise(t, s, g, zc) == Body(t, Start0(s, g), <<>>, zc)
\* ... from the bytes d
FromBytes(t, d, g, zc) == Deserialise(t, InitState(d, FALSE), g, zc)
=============================================================================
