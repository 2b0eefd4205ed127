------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The typed layer: what types there are, when two values of a type are    *)
(* equal, and the documents values are written as.                         *)
(*                                                                         *)
(* Types is the table of the types under consideration; types refer to     *)
(* each other by their index in it.  A type is a record with a field k:    *)
(*   int [s signed?, b bits]   bool   char   unit   null (PhantomData)     *)
(*   str, bytes   owned text / byte strings                                *)
(*   rstr, rbytes borrowed text / byte strings                             *)
(*   barr [n, large]           arrays of bytes                             *)
(*   arr [e, n, large]         arrays                                      *)
(*   seq [e]  set [e]  heap [e]  opt [e]  map [e: the type of pairs]       *)
(*   box [e]  copied [e]  cow [own, ref]       transparent wrappers        *)
(*   struct [f, sp, spn, spt, chk]   f: sequence of [tag, name, t]; sp:    *)
(*     "none" | "del" (delegates to a value of type spt) | "unk" (keeps    *)
(*     unknown fields in a value of type spt)                              *)
(*   enum [v, ca]   v: sequence of variants [d, f, sp, spn, spt, chk]; ca: *)
(*     sequence of at most one catch-all variant                           *)
(*   unk, unkf [cow]   a sequence of unknown fields / one unknown field    *)
(*                                                                         *)
(* Values: unsigned integers and characters are u64 (module N64), signed   *)
(* ones pairs <<negative?, magnitude>>; byte strings records [d: bytes, o: *)
(* offset in the input if borrowed, else -1]; collections sequences; maps  *)
(* sequences of pairs; options sequences of length 0 or 1; structs         *)
(* sequences of field values (unknown fields last), a delegating struct    *)
(* its inner value; enums <<discriminant, fields>>; unknown fields         *)
(* sequences of <<tag, [k, ..]>>.                                          *)
(***************************************************************************)
EXTENDS Stream, Json, SequencesExt

Types == ndJsonDeserialize("schema.ndjson")

RECURSIVE Resolve(_, _)
Resolve(t, zc) ==
  LET y == Types[t]
  IN CASE y.k = "box"    -> Resolve(y.e, zc)
       [] y.k = "copied" -> Resolve(y.e, FALSE)
       [] y.k = "cow"    -> Resolve(IF zc THEN y.ref ELSE y.own, zc)
       [] OTHER          -> [t |-> t, y |-> y, zc |-> zc]
\* the type without its wrappers, when borrowing or not
ResC == [t \in 1..Len(Types) |-> Resolve(t, FALSE)]
ResZ == [t \in 1..Len(Types) |-> Resolve(t, TRUE)]
Res(t, zc) == IF zc THEN ResZ[t] ELSE ResC[t]

Blobs == {"str", "bytes", "rstr", "rbytes"}
Repeated == {"seq", "set", "heap", "arr"}

---------------------------------------------------------------------------
(* Equality of values of type t; off: are offsets of borrowed data part of *)
(* it?  Sets, heaps and maps have no order.                                *)
BytesEq(a, b, off) == a.d = b.d /\ (off => a.o = b.o)

RECURSIVE VEq(_, _, _, _), FrameEq(_, _, _, _), UnkEq(_, _, _)
\* a and b have equally many elements equal to x, for every x of a
SameBag(t, a, b, off) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) :
       Cardinality({ j \in 1..Len(a) : VEq(t, a[j], a[i], off) })
         = Cardinality({ j \in 1..Len(b) : VEq(t, b[j], a[i], off) })
VEq(t, a, b, off) ==
  LET y == ResC[t].y
  IN CASE y.k \in {"int", "char", "bool", "barr"} -> a = b
       [] y.k \in {"unit", "null"} -> TRUE
       [] y.k \in Blobs -> BytesEq(a, b, off)
       [] y.k \in {"seq", "arr", "opt"} ->
            /\ Len(a) = Len(b)
            /\ \A i \in 1..Len(a) : VEq(y.e, a[i], b[i], off)
       [] y.k \in {"set", "heap", "map"} -> SameBag(y.e, a, b, off)
       [] y.k = "struct" ->
            IF y.sp = "del" THEN VEq(y.spt, a, b, off)
            ELSE FrameEq(y, a, b, off)
       [] y.k = "enum" ->
            /\ a[1] = b[1]
            /\ LET ks == { k \in 1..Len(y.v) : y.v[k].d = a[1] }
               IN FrameEq(IF ks # {} THEN y.v[CHOOSE k \in ks : TRUE]
                          ELSE y.ca[1], a[2], b[2], off)
       [] y.k = "unk"  -> UnkEq(a, b, off)
       [] y.k = "unkf" -> UnkEq(<<<<0, a>>>>, <<<<0, b>>>>, off)
FrameEq(F, a, b, off) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(F.f) : VEq(F.f[i].t, a[i], b[i], off)
  /\ F.sp # "none" => VEq(F.spt, a[Len(a)], b[Len(b)], off)
UnkEq(a, b, off) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) :
       LET p == a[i][2]  q == b[i][2]
       IN /\ a[i][1] = b[i][1]
          /\ p.k = q.k
          /\ (CASE p.k = "i" -> p.n = q.n
               [] p.k = "b" -> BytesEq(p, q, off)
               [] p.k = "s" -> UnkEq(p.f, q.f, off)
               [] p.k = "e" -> p.n = q.n /\ UnkEq(p.f, q.f, off))

---------------------------------------------------------------------------
(* The document a value is written as.  A byte -1 marks a value which      *)
(* cannot be written where it stands (documented to panic).                *)
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)

BlobOf(tag, d) == <<Desc(TyBlob, tag)>> \o EncVar(N(Len(d))) \o d
IntOf(tag, n)  == <<Desc(TyInt, tag)>> \o EncVar(n)

RECURSIVE SerElem(_, _, _), SerField(_, _, _), SerBody(_, _), SerFrame(_, _),
          SerUnk(_), SerUnkOne(_, _)
\* v as the one field with the tag
SerElem(t, v, tag) ==
  LET y == ResC[t].y
  IN CASE y.k = "int"  -> IntOf(tag, IF y.s THEN ZigZag(v) ELSE v)
       [] y.k = "bool" -> IntOf(tag, IF v THEN One ELSE Zero)
       [] y.k = "char" -> IntOf(tag, v)
       [] y.k = "null" -> IntOf(tag, Zero)
       [] y.k = "unit" -> <<Desc(TyStruct, tag), SpEos>>
       [] y.k \in Blobs -> BlobOf(tag, v.d)
       [] y.k = "barr" -> BlobOf(tag, v)
       [] y.k \in Repeated \cup {"opt", "map"} ->
            <<Desc(TyStruct, tag)>> \o SerField(t, v, 1) \o <<SpEos>>
       [] y.k = "struct" ->
            IF y.sp = "del" THEN SerElem(y.spt, v, tag)
            ELSE <<Desc(TyStruct, tag)>> \o SerFrame(y, v)
       [] y.k = "enum" ->
            LET ks == { k \in 1..Len(y.v) : y.v[k].d = v[1] }
            IN <<Desc(TyEnum, tag)>> \o EncVar(v[1])
               \o SerFrame(IF ks # {} THEN y.v[CHOOSE k \in ks : TRUE]
                           ELSE y.ca[1], v[2])
       [] y.k = "unk"  -> <<Desc(TyStruct, tag)>> \o SerUnk(v) \o <<SpEos>>
       [] y.k = "unkf" -> SerUnkOne(tag, v)
\* v as a field of something that has other fields: collections and options
\* need no wrapping there
SerField(t, v, tag) ==
  LET y == ResC[t].y
  IN CASE y.k \in Repeated \cup {"opt", "map"} ->
            Cat([i \in 1..Len(v) |-> SerElem(y.e, v[i], tag)], 1)
       [] y.k = "unk" -> <<-1>>
       [] OTHER -> SerElem(t, v, tag)
\* v as a whole document, or as the remainder of a struct
SerBody(t, v) ==
  LET y == ResC[t].y
  IN CASE y.k = "struct" -> SerFrame(y, IF y.sp = "del" THEN <<v>> ELSE v)
       [] y.k = "unk" -> SerUnk(v) \o <<SpEos>>
       [] OTHER -> SerField(t, v, 1) \o <<SpEos>>
SerFrame(F, vs) ==
  Cat([i \in 1..Len(F.f) |-> SerField(F.f[i].t, vs[i], F.f[i].tag)], 1)
  \o IF F.sp = "none" THEN <<SpEos>> ELSE SerBody(F.spt, vs[Len(vs)])
SerUnk(us) == Cat([i \in 1..Len(us) |-> SerUnkOne(us[i][1], us[i][2])], 1)
SerUnkOne(tag, u) ==
  CASE u.k = "i" -> IntOf(tag, u.n)
    [] u.k = "b" -> BlobOf(tag, u.d)
    [] u.k = "s" -> <<Desc(TyStruct, tag)>> \o SerUnk(u.f) \o <<SpEos>>
    [] u.k = "e" -> <<Desc(TyEnum, tag)>> \o EncVar(u.n) \o SerUnk(u.f)
                    \o <<SpEos>>

Writable(d) == \A i \in 1..Len(d) : d[i] >= 0
=============================================================================
