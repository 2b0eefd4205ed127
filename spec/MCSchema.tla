------------------------------ MODULE MCSchema ------------------------------
(***************************************************************************)
(* Explores the typed layer.  A case is a document together with what is   *)
(* done with it; one step carries it out in the specification, and the     *)
(* invariants state what must have come of it, in terms that know nothing  *)
(* of the recursive descent of module Deser.  With Emitting, prints the    *)
(* cases as histories to be performed on the real library.                 *)
(*                                                                         *)
(* Profile selects the cases:                                              *)
(*   rt      every value (of a systematic set) of every type, written and  *)
(*           read back; sequences of two; every proper prefix              *)
(*   doc     all documents of up to Size tokens against small types        *)
(*   limit   values read with limits at and just below what they need      *)
(*   compat  values of one type read as another version of it              *)
(*   unk     values read by types which keep unknown fields, written again *)
(*           and read as what they were                                    *)
(*   zc      values read borrowing and copying                             *)
(* Size bounds how many variants of a component are considered (doc: the   *)
(* number of tokens).                                                      *)
(***************************************************************************)
EXTENDS Deser

CONSTANTS Profile, Size, Emitting, Shard, Shards

VARIABLES c,    \* the case
          k,    \* 0: not yet done, 1: done
          res   \* what came of it
vars == <<c, k, res>>

---------------------------------------------------------------------------
(* Types by name.                                                          *)
Names == { Types[i].nm : i \in 1..Len(Types) } \ {""}
Idx == [n \in Names |-> CHOOSE i \in 1..Len(Types) : Types[i].nm = n]
T(nm) == Idx[nm]
Is(ns) == { T(n) : n \in ns }

Wide  == [rec |-> 60, strict |-> FALSE, mb |-> N(16777216), mc |-> 100000]
Strict == [Wide EXCEPT !.strict = TRUE]
Dflt  == [rec |-> 32, strict |-> FALSE, mb |-> N(65536), mc |-> 256]

---------------------------------------------------------------------------
(* A systematic sequence of pairwise different values of a type: one base  *)
(* value, and for every component the base with another value in it.  fuel *)
(* bounds the nesting.                                                     *)
Few(s, n) == IF Len(s) <= n \/ n < 2 THEN SubSeq(s, 1, Min2(Len(s), n))
             ELSE [i \in 1..n |-> s[1 + ((i - 1) * (Len(s) - 1)) \div (n - 1)]]
Rest(s) == SubSeq(s, 2, Len(s))
With(s, i, x) == [s EXCEPT ![i] = x]
RECURSIVE Flat(_), FlatE(_)
Flat(ss) == FlatE(TLCEval(ss))
FlatE(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlatE(Rest(ss))

RECURSIVE Dedup(_, _)
Dedup(t, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET r == Dedup(t, SubSeq(s, 1, Len(s) - 1))
           x == s[Len(s)]
       IN IF \E i \in 1..Len(r) : VEq(t, r[i], x, FALSE) THEN r ELSE Append(r, x)
\* of pairs with the same key the last one counts
RECURSIVE LastOfKey(_, _)
LastOfKey(t, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET r == LastOfKey(t, SubSeq(s, 1, Len(s) - 1))
           x == s[Len(s)]
           is == { i \in 1..Len(r) : VEq(t, r[i][1], x[1], FALSE) }
       IN IF is = {} THEN Append(r, x) ELSE With(r, CHOOSE i \in is : TRUE, x)

Top(b) == IF b = 64 THEN MAX64 ELSE SubN(P2N(b), One)
\* wider than a smaller integer, with the top bit of that integer set
Mid(b) == IF b = 64 THEN << <<5, 4104, 0>>, N(32769) >>
          ELSE IF b = 32 THEN << N(98309) >> ELSE << >>
IntVals(y) ==
  IF y.s
  THEN << <<FALSE, One>>, <<FALSE, Zero>>, <<TRUE, One>>, <<TRUE, N(64)>>,
          <<FALSE, N(64)>>, <<FALSE, SubN(P2N(y.b - 1), One)>>,
          <<TRUE, P2N(y.b - 1)>> >>
       \o [i \in 1..Len(Mid(y.b)) |-> <<i > 1, Mid(y.b)[i]>>]
  ELSE << One, Zero, N(127), N(128), N(200), Top(y.b) >> \o Mid(y.b)
Blob(d) == [o |-> -1, d |-> d]
BlobVals == << Blob(<<97>>), Blob(<<>>), Blob(<<195, 169, 0, 64>>) >>
CharVals == << N(97), Zero, <<55295, 0, 0>>, N(57344), N(1114111) >>
\* (what tags a keeper of unknown fields may see)
Free(F) == LET used == { F.f[i].tag : i \in 1..Len(F.f) }
               free(n) == CHOOSE t \in n..63 : t \notin used
                                  /\ \A u \in n..t-1 : u \in used
           IN << free(1), free(free(1) + 1), free(60) >>
FreeDisc(y) ==
  LET used == { y.v[i].d : i \in 1..Len(y.v) }
  IN SelectSeq(<< N(200), Zero, N(5), MAX64 >>, LAMBDA d : d \notin used)

RECURSIVE V(_, _), VFrame(_, _), VUnk(_, _), VKept(_, _, _)
\* base + single changes; alts: the values of each component
Vary(alts) ==
  LET b == [i \in 1..Len(alts) |-> alts[i][1]]
  IN <<b>> \o Flat([i \in 1..Len(alts) |->
                      [j \in 1..Len(alts[i]) - 1 |-> With(b, i, alts[i][j + 1])]])
UnkOne(fuel) ==
  << [k |-> "i", n |-> N(300)], [k |-> "b", o |-> -1, d |-> <<1, 2>>] >> \o
  (IF fuel < 1 THEN <<>>
   ELSE << [k |-> "s", f |-> <<>>],
           [k |-> "s", f |-> << <<1, [k |-> "i", n |-> Zero]>>,
                                <<63, [k |-> "s", f |-> <<>>]>> >>],
           [k |-> "e", n |-> MAX64,
            f |-> << <<2, [k |-> "b", o |-> -1, d |-> <<>>]>> >>] >>)
\* lists of unknown fields with these tags
VUnk(tags, fuel) ==
  LET us == UnkOne(fuel)
  IN << << <<tags[1], us[1]>> >>, <<>>,
        << <<tags[2], us[2]>>, <<tags[1], us[1]>>, <<tags[2], us[2]>>,
           <<tags[3], us[1]>> >> >>
     \o [i \in 1..Len(us) - 1 |-> << <<tags[3], us[i + 1]>> >>]
VKept(t, F, fuel) ==
  LET y == ResC[t].y
  IN IF y.k = "unk" THEN VUnk(Free(F), fuel) ELSE V(t, fuel)
VFrame(F, fuel) ==
  LET fs == TLCEval([i \in 1..Len(F.f) |-> Few(V(F.f[i].t, fuel), Size + 2)])
  IN IF F.chk = "dur"
     THEN << <<One, Zero>>, <<MAX64, N(999999999)>>, <<Zero, One>> >>
     ELSE IF F.chk = "ord"
     THEN << <<One, N(300)>>, <<Zero, Zero>>, <<N(65535), N(65535)>> >>
     ELSE IF F.chk = "sum"
     THEN << <<One, N(300)>>, <<N(65535), Zero>>, <<Zero, N(65535)>> >>
     ELSE Vary(IF F.sp = "none" THEN fs ELSE Append(fs, VKept(F.spt, F, fuel)))
V(t, fuel) ==
  LET y == ResC[t].y
      e(n) == TLCEval(Few(V(y.e, fuel - 1), n))
  IN TLCEval(
  CASE y.k = "int"  -> IntVals(y)
    [] y.k = "bool" -> <<TRUE, FALSE>>
    [] y.k = "char" -> CharVals
    [] y.k \in {"unit", "null"} -> << <<>> >>
    [] y.k \in Blobs -> BlobVals
    [] y.k = "barr" -> << [i \in 1..y.n |-> i % 256] >> \o
                       (IF y.n = 0 THEN <<>> ELSE << [i \in 1..y.n |-> 255] >>)
    [] y.k = "opt" -> IF fuel < 1 THEN << <<>> >>
                      ELSE LET s == e(Size + 2)
                           IN << <<s[1]>>, <<>> >> \o
                              [i \in 1..Len(s) - 1 |-> <<s[i + 1]>>]
    [] y.k \in {"seq", "set", "heap", "map"} ->
         IF fuel < 1 THEN << <<>> >>
         ELSE LET s == e(Size + 2)
                  \* (a map has one pair for a key)
                  u == IF y.k = "map" THEN LastOfKey(Types[y.e].f[1].t, s) ELSE s
              IN << <<s[1]>>, <<>> >>
                 \o (IF Len(u) > 1 THEN << u >> ELSE <<>>)
                 \o (IF y.k \in {"seq", "heap"} THEN << <<s[1], s[1]>> >> ELSE <<>>)
                 \o [i \in 1..Len(s) - 1 |-> <<s[i + 1]>>]
    [] y.k = "arr" ->
         IF y.n = 0 THEN << <<>> >>
         ELSE LET s == e(Size + 1)
                  b == [i \in 1..y.n |-> s[1]]
              IN <<b>> \o [j \in 1..Len(s) - 1 |-> With(b, 1, s[j + 1])]
                 \o IF y.n < 2 \/ Len(s) < 2 THEN <<>>
                    ELSE << With(b, y.n, s[2]) >>
    [] y.k = "struct" -> IF y.sp = "del" THEN V(y.spt, fuel)
                         ELSE VFrame(y, fuel - 1)
    [] y.k = "enum" ->
         Flat([i \in 1..Len(y.v) |->
                 LET fs == TLCEval(VFrame(y.v[i], fuel - 1))
                 IN [j \in 1..Len(fs) |-> <<y.v[i].d, fs[j]>>]])
         \o (IF y.ca = <<>> THEN <<>>
             ELSE LET fs == TLCEval(VFrame(y.ca[1], fuel - 1))
                      ds == FreeDisc(y)
                  IN [j \in 1..Len(fs) |-> <<ds[1], fs[j]>>]
                     \o [i \in 1..Len(ds) - 1 |-> <<ds[i + 1], fs[1]>>])
    [] y.k = "unk"  -> VUnk(<<1, 2, 63>>, fuel)
    [] y.k = "unkf" -> UnkOne(fuel))

Fuel == 4
\* (the longest arrays are left to the recorded histories)
ShortArr(i) == /\ Types[i].nm # ""
            /\ Types[i].k \in {"arr", "barr"} => Types[i].n <= 128
Copying == { i \in 1..Len(Types) : ShortArr(i) /\ Types[i].cp }
Borrowing == { i \in 1..Len(Types) : ShortArr(i) /\ Types[i].zc }

\* the types of the cases
PVer == Is({"P1", "P2", "P3", "P4", "P5", "P6", "P7", "P8", "P9", "P10"})
EVer == Is({"E1", "E2", "E3"})
HVer == Is({"H1", "H2", "H3"})
Lone1 == Is({"u8", "u16", "u64", "i16", "i64", "u32", "i32", "i8", "usize", "isize", "bool", "Option<u32>", "Vec<u32>",
             "LinkedList<i16>", "VecDeque<u64>", "HashSet<u8>", "BinaryHeap<i32>",
             "String", "Vec<u8>", "Vec<String>", "BTreeSet<String>", "[u16; 1]",
             "[u16; 2]", "[String; 2]", "Box<u32>", "DelScalar", "DelVec",
             "Option<Option<u8>>", "Vec<Option<u8>>", "Vec<Vec<u8>>",
             "Option<Vec<u8>>", "(u8,)", "(u8, String)"})
Versions == { <<a, b>> \in (PVer \X PVer) \cup (EVer \X EVer) \cup (HVer \X HVer)
                           \cup (Lone1 \X Lone1) : a # b }
Newer == Is({"P3", "P6", "H1", "H2", "Nest", "Colls", "Opts", "Bytes", "UsesEnum",
             "UnkNest", "Sparse", "E2", "DelVar", "Simple", "Std", "Scal",
             "(u8, String)", "Tree", "UsesDel", "P2", "UnkS", "UnkVar"})
\* keep everything they do not know, at every level
Keepers == Is({"Unk", "UnkAll", "UnkS", "UnkC", "UnkHole", "P9"})
DocTypes == Is({"u8", "Option<u32>", "Vec<u32>", "Pt", "(u8, String)", "P3", "E1",
                "Simple", "UnkS", "HashMap<u16, String>", "Option<Option<u8>>",
                "[u16; 2]", "()", "DelVec", "DelVar", "CatchDel", "Vec<u8>",
                "PhantomData<u8>", "Tree", "BTreeSet<String>", "Option<()>",
                "[u8; 2]", "Unk", "Empty"})

Needed == CASE Profile = "rt" -> Copying
            [] Profile = "limit" -> { i \in Copying : Types[i].k # "arr" }
            [] Profile = "zc" -> Borrowing
            [] Profile = "compat" -> { p[1] : p \in Versions }
            [] Profile = "unk" -> Newer
            [] OTHER -> {}
VT == TLCEval([t \in Needed |-> TLCEval(V(t, Fuel))])

---------------------------------------------------------------------------
(* Documents of tokens.                                                    *)
Tokens ==
  << <<SpEos>>, <<64>>, <<192>>, <<128, 1, 120>>,
     <<65, 1>>, <<65, 0>>, <<65, 129, 0>>, <<65, 128, 2>>, <<66, 3>>, <<67, 1>>,
     <<129, 1, 97>>, <<130, 0>>, <<129, 1, 255>>, <<129, 2, 1, 2>>,
     <<193>>, <<193, 65, 1, SpEos>>, <<193, 193, SpEos, SpEos>>, <<194>>,
     <<1, 1>>, <<1, 2, 65, 1, SpEos>>, <<193, 65, 1, 130, 1, 97, SpEos>> >>
RECURSIVE DocsOf(_)
DocsOf(n) == IF n = 0 THEN {<<>>}
             ELSE { <<i>> \o q : i \in 1..Len(Tokens), q \in DocsOf(n - 1) }
DocSpace == UNION { DocsOf(n) : n \in 0..Size }
DocOf(q) == Flat([i \in 1..Len(q) |-> Tokens[q[i]]])

---------------------------------------------------------------------------
(* What reading a value as another type should give, from the rules in     *)
(* "Maintaining Compatibility": fields correspond by tag, a collection is  *)
(* its elements, and anything else is one element.  A result is a sequence *)
(* of at most one value.                                                   *)
Coll == {"seq", "set", "heap", "arr", "opt", "map"}
IsColl(t) == ResC[t].y.k \in Coll
Elems(t, v) == IF IsColl(t) THEN v ELSE <<v>>
ElemT(t) == IF IsColl(t) THEN ResC[t].y.e ELSE t
AllThere(rs) == \A i \in 1..Len(rs) : rs[i] # <<>>
Unwrap(rs) == [i \in 1..Len(rs) |-> rs[i][1]]
RECURSIVE Through(_, _)
\* delegation is transparent
Through(t, zc) == LET y == ResC[t].y
                  IN IF y.k = "struct" /\ y.sp = "del" THEN Through(y.spt, zc)
                     ELSE ResC[t].t

RECURSIVE CElem(_, _, _), CField(_, _, _, _), CFrame(_, _, _)
\* elements read as the field b (a: their type)
CField(a, vs, b0, dummy) ==
  LET b == IF IsColl(b0) THEN b0 ELSE Through(b0, FALSE)
      y == ResC[b].y
      rs == [i \in 1..Len(vs) |-> CElem(a, vs[i], ElemT(b))]
      n == Len(vs)
  IN IF ~AllThere(rs) THEN <<>>
     ELSE LET us == Unwrap(rs)
          IN CASE y.k \in {"seq", "heap"} -> <<us>>
               [] y.k = "set" -> <<Dedup(y.e, us)>>
               [] y.k = "map" -> <<LastOfKey(Types[y.e].f[1].t, us)>>
               [] y.k = "opt" -> IF n <= 1 THEN <<us>> ELSE <<>>
               [] y.k = "arr" -> IF n = y.n THEN <<us>> ELSE <<>>
               [] OTHER -> IF n = 1 THEN us ELSE <<>>
CElem(a0, v, b0) ==
  LET a == Through(a0, FALSE)  b == Through(b0, FALSE)
      x == ResC[a].y  y == ResC[b].y
      \* collections as elements are wrapped in a struct with field 1
      wrapA == x.k \in Coll   wrapB == y.k \in Coll
  IN
  IF wrapA /\ wrapB THEN CField(ElemT(a), v, b, 0)
  ELSE IF wrapA \/ wrapB
  THEN \* ... which is one like any other
       LET fa == IF wrapA THEN << [tag |-> 1, t |-> a] >>
                 ELSE IF x.k = "struct" THEN x.f ELSE <<>>
       IN IF (wrapA /\ y.k = "struct" /\ y.sp = "none")
          THEN CFrame([f |-> fa, sp |-> "none"], <<v>>, y)
          ELSE IF wrapB /\ x.k = "struct" /\ x.sp = "none"
          THEN LET r == CFrame(x, v, [f |-> << [tag |-> 1, t |-> b] >>, sp |-> "none"])
               IN IF r = <<>> THEN <<>> ELSE r[1]
          ELSE <<>>
  ELSE
  CASE x.k = "unkf" ->
         (CASE v.k = "i" -> CElem(T("u64"), v.n, b)
            [] v.k = "b" -> CElem(T("Vec<u8>"), Blob(v.d), b)
            [] v.k = "s" -> CElem(T("UnkAll"), <<v.f>>, b)
            [] v.k = "e" -> CElem(T("CatchDel"), <<v.n, <<v.f>>>>, b))
    [] x.k = "int" /\ y.k = "int" ->
         \* (signed and unsigned numbers are written differently)
         LET u == IF x.s THEN ZigZag(v) ELSE v
             w == IF y.s THEN UnZigZag(u) ELSE u
         IN IF IF y.s THEN InSigned(w, y.b) ELSE InUnsigned(w, y.b) THEN <<w>>
            ELSE <<>>
    [] x.k = "bool" /\ y.k = "bool" -> <<v>>
    [] x.k = "bool" /\ y.k = "int" ->
         <<IF y.s THEN UnZigZag(IF v THEN One ELSE Zero)
           ELSE IF v THEN One ELSE Zero>>
    [] x.k = "int" /\ y.k = "bool" ->
         LET u == IF x.s THEN ZigZag(v) ELSE v
         IN IF u \in {Zero, One} THEN <<u = One>> ELSE <<>>
    [] x.k \in Blobs /\ y.k \in Blobs ->
         IF y.k = "str" /\ ~ValidUtf8(v.d) THEN <<>> ELSE <<v>>
    [] x.k \in Blobs /\ y.k = "barr" -> IF Len(v.d) = y.n THEN <<v.d>> ELSE <<>>
    [] x.k = "barr" /\ y.k \in Blobs -> <<Blob(v)>>
    [] x.k = "barr" /\ y.k = "barr" -> IF x.n = y.n THEN <<v>> ELSE <<>>
    [] x.k = "struct" /\ y.k = "struct" -> CFrame(x, v, y)
    [] x.k = "enum" /\ y.k = "enum" ->
         LET known(z) == { i \in 1..Len(z.v) : z.v[i].d = v[1] }
             fa == IF known(x) # {} THEN x.v[CHOOSE i \in known(x) : TRUE] ELSE x.ca[1]
         IN IF known(y) = {} /\ y.ca = <<>> THEN <<>>
            ELSE LET fb == IF known(y) # {} THEN y.v[CHOOSE i \in known(y) : TRUE]
                           ELSE y.ca[1]
                     r == CFrame(fa, v[2], fb)
                 IN IF r = <<>> THEN <<>> ELSE << <<v[1], r[1]>> >>
    [] OTHER -> <<>>
\* the elements of F's field with the tag, [t, vs]
Occ(F, v, tag) ==
  LET is == { i \in 1..Len(F.f) : F.f[i].tag = tag }
  IN IF is = {}
     THEN IF F.sp = "unk"
          THEN [t |-> T("UnknownField<'static>"),
                vs |-> LET us == SelectSeq(v[Len(v)], LAMBDA u : u[1] = tag)
                       IN [i \in 1..Len(us) |-> us[i][2]]]
          ELSE [t |-> 0, vs |-> <<>>]
     ELSE LET i == CHOOSE i \in is : TRUE
          IN [t |-> ElemT(F.f[i].t), vs |-> Elems(F.f[i].t, v[i])]
\* an element as an unknown field
RECURSIVE AsUnk(_, _), AsUnks(_, _, _)
AsUnk(t, v) ==
  LET y == ResC[Through(t, FALSE)].y
  IN CASE y.k = "int"  -> [k |-> "i", n |-> IF y.s THEN ZigZag(v) ELSE v]
       [] y.k = "bool" -> [k |-> "i", n |-> IF v THEN One ELSE Zero]
       [] y.k = "char" -> [k |-> "i", n |-> v]
       [] y.k = "null" -> [k |-> "i", n |-> Zero]
       [] y.k = "unit" -> [k |-> "s", f |-> <<>>]
       [] y.k \in Blobs -> [k |-> "b", o |-> -1, d |-> v.d]
       [] y.k = "barr"  -> [k |-> "b", o |-> -1, d |-> v]
       [] y.k \in Coll ->
            [k |-> "s", f |-> AsUnks([f |-> << [tag |-> 1, t |-> t] >>,
                                      sp |-> "none"], <<v>>, {})]
       [] y.k = "struct" -> [k |-> "s", f |-> AsUnks(y, v, {})]
       [] y.k = "enum" ->
            LET is == { i \in 1..Len(y.v) : y.v[i].d = v[1] }
            IN [k |-> "e", n |-> v[1],
                f |-> AsUnks(IF is # {} THEN y.v[CHOOSE i \in is : TRUE] ELSE y.ca[1],
                             v[2], {})]
       [] y.k = "unk" -> [k |-> "s", f |-> v]
       [] y.k = "unkf" -> v
AsUnks(F, v, except) ==
  Flat([i \in 1..Len(F.f) |->
          IF F.f[i].tag \in except THEN <<>>
          ELSE LET vs == Elems(F.f[i].t, v[i])
               IN [j \in 1..Len(vs) |-> <<F.f[i].tag, AsUnk(ElemT(F.f[i].t), vs[j])>>]])
  \o (CASE F.sp = "unk" -> SelectSeq(v[Len(v)], LAMBDA u : u[1] \notin except)
        [] F.sp = "del" -> (LET y == ResC[Through(F.spt, FALSE)].y
                            IN IF y.k = "struct" THEN AsUnks(y, v[Len(v)], except)
                               ELSE IF y.k = "unk" THEN v[Len(v)]
                               ELSE AsUnks([f |-> << [tag |-> 1, t |-> F.spt] >>,
                                            sp |-> "none"], <<v[Len(v)]>>, except))
        [] OTHER -> <<>>)
CFrame(F, v, G) ==
  LET rs == [i \in 1..Len(G.f) |->
               LET o == Occ(F, v, G.f[i].tag)
               IN CField(o.t, o.vs, G.f[i].t, 0)]
      kept == AsUnks(F, v, { G.f[i].tag : i \in 1..Len(G.f) })
  IN IF ~AllThere(rs) THEN <<>>
     ELSE IF G.sp = "unk" THEN << Append(Unwrap(rs), kept) >>
     ELSE << Unwrap(rs) >>
\* whole messages
AsStruct(t) == LET u == Through(t, FALSE)
                   y == ResC[u].y
               IN IF y.k = "struct" THEN y
                  ELSE [f |-> << [tag |-> 1, t |-> u] >>, sp |-> "none"]
Whole(t) == ResC[Through(t, FALSE)].y.k = "struct"
Conv(a, v, b) ==
  LET r == CFrame(AsStruct(a), IF Whole(a) THEN v ELSE <<v>>, AsStruct(b))
  IN IF r = <<>> THEN <<>> ELSE IF Whole(b) THEN r ELSE r[1]
\* a strict reader also refuses whatever it does not know; this looks at
\* whole messages only
KnowsTop(a, v, b) ==
  LET F == AsStruct(a)  G == AsStruct(b)
  IN G.sp # "none" \/ AsUnks(F, IF Whole(a) THEN v ELSE <<v>>,
                             { G.f[i].tag : i \in 1..Len(G.f) }) = <<>>

---------------------------------------------------------------------------
(* What reading a value takes: bytes of owned blobs, elements of growing   *)
(* collections.                                                            *)
RECURSIVE NeedB(_, _), NeedC(_, _), NeedBF(_, _), NeedCF(_, _), UnkB(_), UnkC(_),
          Sum(_), SumE(_)
Sum(s) == SumE(TLCEval(s))
SumE(s) == IF s = <<>> THEN 0 ELSE s[1] + SumE(Rest(s))
FrameOf(y, v) == LET is == { i \in 1..Len(y.v) : y.v[i].d = v[1] }
                 IN IF is # {} THEN y.v[CHOOSE i \in is : TRUE] ELSE y.ca[1]
UnkB(us) == Sum([i \in 1..Len(us) |->
              LET u == us[i][2] IN CASE u.k = "b" -> Len(u.d)
                                     [] u.k = "i" -> 0 [] OTHER -> UnkB(u.f)])
UnkC(us) == Sum([i \in 1..Len(us) |->
              LET u == us[i][2] IN CASE u.k \in {"b", "i"} -> 1 [] OTHER -> 1 + UnkC(u.f)])
NeedB(t, v) ==
  LET y == ResC[t].y
  IN CASE y.k \in {"str", "bytes"} -> Len(v.d)
       [] y.k \in Coll -> Sum([i \in 1..Len(v) |-> NeedB(y.e, v[i])])
       [] y.k = "struct" -> IF y.sp = "del" THEN NeedB(y.spt, v) ELSE NeedBF(y, v)
       [] y.k = "enum" -> NeedBF(FrameOf(y, v), v[2])
       [] y.k = "unk" -> UnkB(v)
       [] y.k = "unkf" -> UnkB(<< <<1, v>> >>)
       [] OTHER -> 0
NeedBF(F, v) == Sum([i \in 1..Len(v) |-> NeedB(IF i <= Len(F.f) THEN F.f[i].t ELSE F.spt, v[i])])
NeedC(t, v) ==
  LET y == ResC[t].y
  IN CASE y.k \in {"seq", "set", "heap", "map"} ->
            Len(v) + Sum([i \in 1..Len(v) |-> NeedC(y.e, v[i])])
       [] y.k \in {"arr", "opt"} -> Sum([i \in 1..Len(v) |-> NeedC(y.e, v[i])])
       [] y.k = "struct" -> IF y.sp = "del" THEN NeedC(y.spt, v) ELSE NeedCF(y, v)
       [] y.k = "enum" -> NeedCF(FrameOf(y, v), v[2])
       [] y.k = "unk" -> UnkC(v)
       [] y.k = "unkf" -> UnkC(<< <<1, v>> >>) - 1
       [] OTHER -> 0
NeedCF(F, v) == Sum([i \in 1..Len(v) |-> NeedC(IF i <= Len(F.f) THEN F.f[i].t ELSE F.spt, v[i])])

---------------------------------------------------------------------------
Cases ==
  CASE Profile \in {"rt", "limit", "zc"} ->
         UNION { { [t |-> t, i |-> i] : i \in 1..Len(VT[t]) } : t \in Needed }
    [] Profile = "compat" ->
         UNION { { [t |-> p[1], b |-> p[2], i |-> i] : i \in 1..Len(VT[p[1]]) } : p \in Versions }
    [] Profile = "unk" ->
         UNION { { [t |-> t, b |-> b, i |-> i] : i \in 1..Len(VT[t]), b \in Keepers } : t \in Newer }
    [] Profile = "doc" -> { [t |-> t, q |-> q] : t \in DocTypes, q \in DocSpace }

\* An exploration is split over Shards processes of TLC with one worker each
\* (several workers in one process would share the values of the
\* specification, which TLC normalises in place while others read them).
InShard(q) == FoldLeft(LAMBDA a, x : (3 * a + x) % 1009, 0, q) % Shards = Shard
CaseNumbers(x) == IF Profile = "doc" THEN <<x.t>> \o x.q
                  ELSE IF Profile \in {"compat", "unk"} THEN <<x.t, x.b, x.i>>
                  ELSE <<x.t, x.i>>

Init == c \in { x \in Cases : InShard(CaseNumbers(x)) } /\ k = 0 /\ res = <<>>

Open(d) == [o |-> "open", d |-> d, gr |-> FALSE]
De(t, en, g) == [o |-> "de", t |-> t, en |-> en, cfg |-> g]
Reser(en) == [o |-> "reser", en |-> en]
Hist(ops) == IF Emitting THEN PrintT("H " \o ToJson([b |-> <<>>, ops |-> ops])) ELSE TRUE
Zc(t) == Types[t].zc
Read(t, d, g) == FromBytes(t, d, g, FALSE)

\* a second type to read something else from the same stream
Second == T("(u8, String)")
SecondV == <<N(7), Blob(<<98>>)>>

\* (values are bound by \E to have them evaluated once)
DoRt ==
  \E v \in {VT[c.t][c.i]} :
  \E d \in {SerBody(c.t, v)} :
  Writable(d) /\
  \E d2 \in {d \o SerBody(Second, SecondV)} :
  \E m \in {Read(c.t, d, Strict)} :
  \E m2 \in {IF m.ok THEN Deserialise(Second, Deserialise(c.t, InitState(d2, FALSE), Wide, FALSE).s, Wide, FALSE) ELSE m} :
     /\ res' = [d |-> d, v |-> v, m |-> m, m2 |-> m2]
     /\ Hist(<<Open(d2), De(c.t, "stc", Wide), De(Second, "stc", Strict), Open(d2),
               De(c.t, "smc", Wide), De(Second, "smc", Wide), Open(d), De(c.t, "rd", Wide),
               De(c.t, "slc", Strict), Reser("vec"), De(c.t, "rd", Strict), Reser("wr")>>
             \o IF Zc(c.t) THEN <<De(c.t, "slb", Strict)>> ELSE <<>>)
DoDoc ==
  \E d \in {DocOf(c.q)} :
  \E m \in {Read(c.t, d, Wide)} :
  \E s \in {Read(c.t, d, Strict)} :
     /\ res' = [d |-> d, m |-> m, s |-> s]
     /\ Hist(<<Open(d), De(c.t, "slc", Dflt), De(c.t, "rd", Strict)>>
             \o (IF Zc(c.t) THEN <<De(c.t, "slb", Dflt)>> ELSE <<>>)
             \o (IF m.ok THEN <<Reser("vec"), De(c.t, "rd", Dflt)>> ELSE <<>>))
DoLimit ==
  \E v \in {VT[c.t][c.i]} :
  \E d \in {SerBody(c.t, v)} :
  Writable(d) /\
  \E b \in {NeedB(c.t, v)} :
  \E n \in {NeedC(c.t, v)} :
  \E g \in {[Wide EXCEPT !.mb = N(b), !.mc = n]} :
  \E gb \in {[g EXCEPT !.mb = IF b = 0 THEN Zero ELSE N(b - 1)]} :
  \E gc \in {[g EXCEPT !.mc = IF n = 0 THEN 0 ELSE n - 1]} :
     /\ res' = [b |-> b, n |-> n, v |-> v, m |-> Read(c.t, d, g), mb |-> Read(c.t, d, gb),
                mc |-> Read(c.t, d, gc),
                mr |-> [r \in 0..8 |-> Read(c.t, d, [Wide EXCEPT !.rec = r])]]
     /\ Hist(<<Open(d), De(c.t, "slc", g), De(c.t, "rd", gb), De(c.t, "slc", gc)>>
             \o [r \in 1..7 |-> De(c.t, IF r % 2 = 0 THEN "rd" ELSE "slc", [Wide EXCEPT !.rec = r - 1])])
DoCompat ==
  \E v \in {VT[c.t][c.i]} :
  \E d \in {SerBody(c.t, v)} :
     /\ res' = [v |-> v, d |-> d, m |-> Read(c.b, d, Wide), s |-> Read(c.b, d, Strict)]
     /\ Hist(<<Open(d), De(c.b, "slc", Dflt), De(c.b, "rd", Strict)>>
             \o IF Zc(c.b) THEN <<De(c.b, "slb", Dflt)>> ELSE <<>>)
DoUnk ==
  \E v \in {VT[c.t][c.i]} :
  \E d \in {SerBody(c.t, v)} :
  \E m \in {Read(c.b, d, Strict)} :
  \E d2 \in {IF m.ok THEN SerBody(c.b, m.v) ELSE <<>>} :
     /\ res' = [v |-> v, m |-> m, m2 |-> IF m.ok THEN Read(c.t, d2, Strict) ELSE m, d |-> d, d2 |-> d2]
     /\ Hist(<<Open(d), De(c.b, "slc", Dflt)>>
             \o (IF m.ok THEN <<Reser("vec"), De(c.t, "rd", Strict)>> ELSE <<>>)
             \o (IF Zc(c.b) /\ m.ok THEN <<Open(d), De(c.b, "slb", Dflt), Reser("wr"), De(c.t, "slc", Dflt)>> ELSE <<>>))
DoZc ==
  \E v \in {VT[c.t][c.i]} :
  \E d \in {SerBody(c.t, v)} :
  Writable(d) /\
  \E z \in {[Wide EXCEPT !.mb = Zero]} :
     /\ res' = [v |-> v, d |-> d, m |-> FromBytes(c.t, d, Wide, TRUE), mz |-> FromBytes(c.t, d, z, TRUE)]
     /\ Hist(<<Open(d), De(c.t, "slb", Dflt), De(c.t, "slb", z), De(c.t, "stb", Dflt), Reser("vec")>>
             \o IF Types[c.t].cp THEN <<De(c.t, "slc", Dflt), De(c.t, "rd", z)>> ELSE <<>>)

Next ==
  /\ k = 0 /\ k' = 1 /\ UNCHANGED c
  /\ CASE Profile = "rt" -> DoRt
       [] Profile = "doc" -> DoDoc
       [] Profile = "limit" -> DoLimit
       [] Profile = "compat" -> DoCompat
       [] Profile = "unk" -> DoUnk
       [] Profile = "zc" -> DoZc
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
At(p) == k = 1 /\ Profile = p

\* C09, C10: what was written is read, all of it and nothing more; it is
\* written the same way again
RtOk == At("rt") =>
  /\ res.m.ok /\ VEq(c.t, res.m.v, res.v, FALSE)
  /\ res.m.s.pos = N(Len(res.d))
  /\ SerBody(c.t, res.m.v) = res.d
  /\ res.m2.ok /\ VEq(Second, res.m2.v, SecondV, FALSE)
\* C11: no part of a message is a message
PrefixOk == (At("rt") /\ Len(res.d) < 40) =>
  \A n \in 0..Len(res.d) - 1 :
    LET m == Read(c.t, SubSeq(res.d, 1, n), Wide)
    IN /\ ~m.ok
       \* C17: the places named lie in what there is
       /\ \A i \in 1..Len(m.e.path) : LeN(m.e.path[i][2], N(n))

\* C11: a strict reader accepts less, and nothing else
StrictOk == At("doc") => (res.s.ok => res.m.ok /\ VEq(c.t, res.s.v, res.m.v, FALSE))
\* C11: what is accepted is a value: it can be written, and is read again
AcceptOk == At("doc") => (res.m.ok =>
  LET d == SerBody(c.t, res.m.v)
      m == Read(c.t, d, Strict)
  IN Writable(d) /\ m.ok /\ VEq(c.t, m.v, res.m.v, FALSE) /\ SerBody(c.t, m.v) = d)
\* C17: the path of an error leads through structs and enums of the document
\* (and through delegates, which are part of their containers)
Delegates == UNION { IF Types[i].k = "struct" THEN {Types[i].spn}
                     ELSE IF Types[i].k = "enum"
                     THEN { Types[i].v[j].spn : j \in 1..Len(Types[i].v) }
                          \cup { Types[i].ca[j].spn : j \in 1..Len(Types[i].ca) }
                     ELSE {} : i \in 1..Len(Types) }
PathOk == (At("doc") /\ ~res.m.ok) =>
  LET p == res.m.e.path
  IN /\ \A i \in 1..Len(p) : LeN(p[i][2], N(Len(res.d)))
     /\ \A i \in 1..Len(p) - 1 :
          LET q == ToInt(p[i][2])
          IN \/ q < Len(res.d) /\ res.d[q + 1] \div 64 \in {0, 3}
             \/ p[i][1] \in Delegates
     /\ \A i, j \in 1..Len(p) : i < j => LeN(p[i][2], p[j][2])

\* C12: the limits are exact, nothing else is
LimitOk == At("limit") =>
  /\ res.m.ok /\ VEq(c.t, res.m.v, res.v, FALSE)
  /\ res.b > 0 => ~res.mb.ok /\ res.mb.e.c = "maxb"
  /\ res.n > 0 => ~res.mc.ok /\ res.mc.e.c = "maxc"
  /\ \A r \in 0..8 : /\ ~res.mr[r].ok => res.mr[r].e.c = "rec"
                     /\ Len(res.mr[r].e.path) <= r
                     /\ (r > 0 /\ res.mr[r - 1].ok) => res.mr[r].ok
                     /\ res.mr[r].ok => VEq(c.t, res.mr[r].v, res.v, FALSE)

\* C13: another version of the type sees what it should
CompatOk == At("compat") =>
  LET w == Conv(c.t, res.v, c.b)
  IN /\ res.m.ok = (w # <<>>)
     /\ res.m.ok => VEq(c.b, res.m.v, w[1], FALSE)
     /\ res.s.ok => res.m.ok
     /\ res.s.ok => KnowsTop(c.t, res.v, c.b)

\* C14: what a reader does not know survives it
KeepOk == At("unk") => (res.m.ok => /\ Writable(res.d2)
                                    /\ res.m2.ok /\ VEq(c.t, res.m2.v, res.v, FALSE)
                                    /\ Len(res.d2) = Len(res.d))
\* C15: borrowed data is what lies there
RECURSIVE Lies(_, _, _)
Lies(t, v, d) ==
  LET y == ResC[t].y
      F == IF y.k = "enum" THEN FrameOf(y, v) ELSE y
      fv == IF y.k = "enum" THEN v[2] ELSE v
  IN CASE y.k \in Blobs -> v.o >= 0 => SubSeq(d, v.o + 1, v.o + Len(v.d)) = v.d
       [] y.k \in Coll -> \A i \in 1..Len(v) : Lies(y.e, v[i], d)
       [] y.k = "struct" /\ y.sp = "del" -> Lies(y.spt, v, d)
       [] y.k \in {"struct", "enum"} ->
            \A i \in 1..Len(fv) : Lies(IF i <= Len(F.f) THEN F.f[i].t ELSE F.spt, fv[i], d)
       [] OTHER -> TRUE
\* bytes which have to be copied even when borrowing
RECURSIVE Owned(_, _, _)
Owned(t, v, zc) ==
  LET r == Res(t, zc)
      y == r.y
      F == IF y.k = "enum" THEN FrameOf(y, v) ELSE y
      fv == IF y.k = "enum" THEN v[2] ELSE v
  IN CASE y.k \in {"str", "bytes"} -> Len(v.d)
       [] y.k \in Coll -> Sum([i \in 1..Len(v) |-> Owned(y.e, v[i], r.zc)])
       [] y.k = "struct" /\ y.sp = "del" -> Owned(y.spt, v, r.zc)
       [] y.k \in {"struct", "enum"} ->
            Sum([i \in 1..Len(fv) |-> Owned(IF i <= Len(F.f) THEN F.f[i].t ELSE F.spt, fv[i], r.zc)])
       [] y.k = "unk" -> IF r.zc THEN 0 ELSE UnkB(v)
       [] y.k = "unkf" -> IF r.zc THEN 0 ELSE UnkB(<< <<1, v>> >>)
       [] OTHER -> 0
ZcOk == At("zc") =>
  /\ res.m.ok /\ VEq(c.t, res.m.v, res.v, FALSE)
  /\ Lies(c.t, res.m.v, res.d)
  /\ SerBody(c.t, res.m.v) = res.d
  /\ res.mz.ok = (Owned(c.t, res.v, TRUE) = 0)
=============================================================================
