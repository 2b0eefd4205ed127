------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The stream session machine: the observable behaviour of a fourleaf      *)
(* stream over a byte buffer, for every operation of its low-level API.    *)
(*                                                                         *)
(* A state is a record (see InitState).  An operation is a record with a   *)
(* field "o" naming it plus its arguments.  Outcomes(s, op) is the set of  *)
(* outcomes the specification allows: records [r |-> result, s |-> state]. *)
(* The set has more than one member only where the library's contract      *)
(* leaves a choice.  Choices which the environment makes (how many bytes a *)
(* single transfer moves) are inputs: op.n when present.                   *)
(*                                                                         *)
(* A state with dd = TRUE is one after which the contract promises nothing *)
(* (an operation failed, or did something documented as unspecified).      *)
(***************************************************************************)
EXTENDS Wire, TLC

InitState(buf, seekable) ==
  [ b   |-> buf,     \* the bytes of the underlying stream
    ip  |-> Zero,    \* offset of the underlying stream
    pos |-> Zero,    \* logical offset
    eof |-> FALSE,   \* end of document seen
    gr  |-> FALSE,   \* graceful end of input
    dep |-> 0,       \* struct depth
    cm  |-> "none",  \* uncommitted blob: none | read | fixed | dyn
    be  |-> Zero,    \* logical offset of its end
    bl  |-> Zero,    \* its length
    ds  |-> Zero,    \* dyn: logical offset of its first byte
    hw  |-> Zero,    \* dyn: logical offset of the end of what was written
    h   |-> "none",  \* handle held by the client: none | blob | int | sub
    hd  |-> 0,       \* depth of the field whose handle is held
    ht  |-> "x",     \* its kind: i | b | s | e; x: no field
    hv  |-> Zero,    \* its integer or discriminant
    hp  |-> Zero,    \* its position
    fs  |-> <<>>,    \* depths of the fields whose stream is being used
    wz  |-> {},      \* dyn: the bytes (1-based) of the buffer where its
                     \* length will be; unspecified until it is committed
    sk  |-> seekable,\* are blobs skipped by seeking?
    dd  |-> FALSE,   \* nothing is promised any more
    fb  |-> "exact", \* what is known of the underlying bytes then: they are
                     \* b | extend b by a prefix of hb's tail | unknown
    hb  |-> <<>> ]

Has(op, f) == f \in DOMAIN op

Kill(s)      == [s EXCEPT !.dd = TRUE, !.h = "none"]
\* killed while writing; t is the state a complete write would have led to
KillW(s, t)  == IF s.ip = N(Len(s.b))
                THEN [Kill(s) EXCEPT !.fb = "mid", !.hb = t.b]
                ELSE [Kill(s) EXCEPT !.fb = "free"]
R(k)         == [k |-> k]
Ok           == R("ok")
RNum(n)      == [k |-> "n", n |-> n]
RData(d)     == [k |-> "d", d |-> d]
RErr(c)      == [k |-> "err", c |-> c]
Out(r, s)    == [r |-> r, s |-> s]
Fail(s, cs)  == { Out(RErr(c), Kill(s)) : c \in cs }
FailW(s, t, cs) == { Out(RErr(c), KillW(s, t)) : c \in cs }
Unspec(s)    == { Out(R("any"), [Kill(s) EXCEPT !.fb = "free"]) }

Avail(s) == IF Small(s.ip) /\ ToInt(s.ip) < Len(s.b)
            THEN Len(s.b) - ToInt(s.ip) ELSE 0
Rem(s)   == SubN(s.be, s.pos)
\* min of a u64 and a small integer, as a small integer
MinI(n, i) == IF Small(n) /\ ToInt(n) < i THEN ToInt(n) ELSE i
Min2(i, j) == IF i < j THEN i ELSE j

Peek(s, n)   == SubSeq(s.b, ToInt(s.ip) + 1, ToInt(s.ip) + n)
Take(s, n)   == IF n = 0 THEN <<>> ELSE Peek(s, n)
Adv(s, n)    == [s EXCEPT !.ip = AddI(s.ip, n), !.pos = AddI(s.pos, n)]
AdvN(s, n)   == [s EXCEPT !.ip = AddN(s.ip, n), !.pos = AddN(s.pos, n)]

Zeros(n) == [i \in 1..n |-> 0]
Put(b, i, data) ==
  LET b1 == IF i > Len(b) THEN b \o Zeros(i - Len(b)) ELSE b
  IN SubSeq(b1, 1, i) \o data \o SubSeq(b1, i + Len(data) + 1, Len(b1))
\* the bytes bs written at the current offset (no overflow check)
Emit(s, bs) ==
  IF bs = <<>> THEN s
  ELSE Adv([s EXCEPT !.b = Put(s.b, ToInt(s.ip), bs)], Len(bs))
\* too far beyond the end of the underlying buffer to be written to
FarOff(s) == ~Small(s.ip) \/ ToInt(s.ip) > Len(s.b) + 4096

---------------------------------------------------------------------------
(* Bringing the stream to an element boundary.  [c |-> "ok" | error class, *)
(* s |-> state, n |-> payload].                                            *)
CRes(c, s, n) == [c |-> c, s |-> s, n |-> n]
Committed(s) == [s EXCEPT !.cm = "none", !.wz = {}]
Commit(s0) ==
  LET s == [s0 EXCEPT !.h = "none"]
  IN CASE s.cm = "none" -> CRes("ok", s, Zero)
       [] s.cm = "read" ->
            IF LtN(s.pos, s.be)
            THEN LET n == Rem(s)
                 IN IF Small(n) /\ ToInt(n) <= Avail(s)
                    THEN CRes("ok", Committed(AdvN(s, n)), Zero)
                    ELSE CRes("trunc", s, Zero)
            ELSE CRes("ok", Committed(s), Zero)
       [] s.cm = "fixed" ->
            IF s.pos = s.be THEN CRes("ok", Committed(s), Zero)
            ELSE CRes("incomplete", s, Rem(s))
       [] s.cm = "dyn" ->
            \* the position tells the length: leaving it before the end of
            \* what was written is unspecified, leaving it beyond that makes
            \* a sparse blob
            IF LtN(s.pos, s.ds) THEN CRes("posbefore", s, Zero)
            ELSE IF LtN(s.pos, s.hw) THEN CRes("any", s, Zero)
            ELSE LET len == SubN(s.pos, s.ds)
                     at  == ToInt(SubN(SubN(s.ip, len), N(10)))
                 IN IF LtN(I63m1, len) THEN CRes("longdyn", s, Zero)
                    ELSE IF LtN(I63m1, AddI(len, 10))
                    THEN CRes("any", s, Zero)
                    ELSE CRes("ok",
                         Committed([s EXCEPT !.b = Put(s.b, at, EncFixed(len))]),
                         Zero)
CFail(c) == IF c.c = "any" THEN Unspec(c.s)
            ELSE IF c.c = "incomplete"
                 THEN { Out([k |-> "err", c |-> "incomplete", n |-> c.n],
                            c.s) }
            \* a refusal changes nothing: it is repeated until the position
            \* has been repaired
            ELSE IF c.c \in {"posbefore", "longdyn"}
                 THEN { Out(RErr(c.c), c.s) }
            ELSE Fail(c.s, {c.c})

---------------------------------------------------------------------------
(* Decoding one element at the current offset of a committed state.        *)
(* c = "ok": k in "f" (field), "eos", "eod", "x" (exception), "p".         *)
EErr(s, c) == [c |-> c, s |-> s, k |-> "", tag |-> 0, pos |-> s.pos,
               dep |-> 0, t |-> "", n |-> Zero]
EOk(s, k)  == [c |-> "ok", s |-> s, k |-> k, tag |-> 0, pos |-> s.pos,
               dep |-> 0, t |-> "", n |-> Zero]

\* an integer of an element whose descriptor has been consumed
GetInt(s) ==
  LET lim == \* a reader never consumes bytes beyond position 2^64-1
        LET room == SubN(MAX64, s.pos)
            av   == Avail(s)
        IN IF Small(room) /\ ToInt(room) < av
           THEN ToInt(s.ip) + ToInt(room) ELSE Len(s.b)
      d == IF Avail(s) = 0 THEN [r |-> "eof", v |-> Zero, n |-> 0]
           ELSE DecVarK(s.b, ToInt(s.ip), lim, 0, Zero)
      \* running into position 2^64-1 instead of the end of the input
      full == d.r = "eof" /\ AddI(s.pos, d.n) = MAX64
  IN [c |-> IF full THEN "full" ELSE d.r, v |-> d.v, s |-> Adv(s, d.n)]

\* open a blob of length n whose header has been consumed
OpenBlob(s, n, cm) ==
  [s EXCEPT !.be = AddN(s.pos, n), !.bl = n, !.cm = cm, !.h = "blob",
            !.ht = "x"]

ElemAt(s) ==
  IF s.pos = MAX64 THEN EErr(s, "full")
  ELSE IF Avail(s) = 0
       THEN IF s.gr THEN EOk([s EXCEPT !.eof = TRUE, !.dep = 0, !.h = "none"],
                             "eod")
            ELSE EErr(s, "eof")
  ELSE
  LET d   == s.b[ToInt(s.ip) + 1]
      tag == DescTag(d)
      ty  == DescTy(d)
      s1  == Adv(s, 1)
      dep == IF s.dep = 0 THEN 1 ELSE s.dep
      s2  == [s1 EXCEPT !.dep = dep]
      fld(st, t, n) == [c |-> "ok", k |-> "f",
                        s |-> [st EXCEPT !.hd = dep, !.ht = t, !.hv = n,
                              !.hp = s.pos],
                        tag |-> tag, pos |-> s.pos, dep |-> dep,
                        t |-> t, n |-> n]
      blob(st, k) ==
        LET g == GetInt(st)
        IN IF g.c # "ok" THEN EErr(g.s, g.c)
           ELSE IF OvfN(g.s.pos, g.v) THEN EErr(g.s, "long")
           ELSE [fld(OpenBlob(g.s, g.v, "read"), "b", g.v) EXCEPT !.k = k,
                   !.s.ht = IF k = "x" THEN "x" ELSE "b"]
  IN IF tag = 0
     THEN CASE d = SpEos -> EOk([s1 EXCEPT !.dep = IF s.dep > 0 THEN s.dep - 1
                                                   ELSE 0, !.h = "none"], "eos")
            [] d = SpEod -> EOk([s1 EXCEPT !.eof = TRUE, !.dep = 0,
                                           !.h = "none"], "eod")
            [] d = SpExc -> blob(s1, "x")
            [] d = SpPad -> EOk([s1 EXCEPT !.h = "none"], "p")
     ELSE CASE ty = TyInt ->
                 LET g == GetInt(s2)
                 IN IF g.c # "ok" THEN EErr(g.s, g.c)
                    ELSE fld([g.s EXCEPT !.h = "int"], "i", g.v)
            [] ty = TyBlob -> blob(s2, "f")
            [] ty = TyStruct ->
                 fld([s2 EXCEPT !.dep = dep + 1, !.h = "sub"], "s", Zero)
            [] ty = TyEnum ->
                 LET g == GetInt(s2)
                 IN IF g.c # "ok" THEN EErr(g.s, g.c)
                    ELSE fld([g.s EXCEPT !.dep = dep + 1, !.h = "sub"], "e",
                             g.v)

\* error classes a decoding failure may be reported as
EClasses(c) == CASE c = "full" -> {"io", "eof"}
                 [] c = "long" -> {"io", "long"}
                 [] OTHER -> {c}

AtEnd(s) == EOk([s EXCEPT !.h = "none", !.dep = 0], "eod")
(* the next element, after implicitly finishing with the previous one *)
NextElem(s) ==
  IF s.eof THEN AtEnd(s)
  ELSE LET c == Commit(s)
       IN IF c.c # "ok" THEN EErr(c.s, c.c) ELSE ElemAt(c.s)

(* Going on until something is reached.  (Steps are taken 1, 2, 4, .. at a *)
(* time, for what may be 100000 of them should not be nested that deep.)   *)
(* the next element that is not padding *)
IsPad(e) == e.c = "ok" /\ e.k = "p"
RECURSIVE PadN(_, _), PadGo(_, _)
PadN(e, n) == IF ~IsPad(e) THEN e ELSE IF n = 0 THEN NextElem(e.s)
              ELSE PadN(PadN(e, n - 1), n - 1)
PadGo(e, n) == LET x == PadN(e, n) IN IF IsPad(x) THEN PadGo(x, n + 1) ELSE x
NextNonPad(s) == LET e == NextElem(s) IN IF IsPad(e) THEN PadGo(e, 0) ELSE e

(* decode and drop elements until the depth is at most d *)
Above(e, d) == e.c = "ok" /\ e.s.dep > d
RECURSIVE DropN(_, _, _), DropGo(_, _, _)
DropN(e, d, n) == IF ~Above(e, d) THEN e ELSE IF n = 0 THEN NextElem(e.s)
                  ELSE DropN(DropN(e, d, n - 1), d, n - 1)
DropGo(e, d, n) ==
  LET x == DropN(e, d, n) IN IF Above(x, d) THEN DropGo(x, d, n + 1) ELSE x
SkipUp(s, d) ==
  LET e == IF s.dep <= d THEN EOk(s, "ok") ELSE DropGo(NextElem(s), d, 0)
  IN IF e.c # "ok" THEN e ELSE EOk([e.s EXCEPT !.h = "none"], "ok")

EFail(e) == IF e.c = "any" THEN Unspec(e.s)
            ELSE IF e.c = "incomplete"
                 THEN { Out([k |-> "err", c |-> "incomplete", n |-> Rem(e.s)],
                            e.s) }
            ELSE IF e.c \in {"posbefore", "longdyn"}
                 THEN { Out(RErr(e.c), e.s) }
            ELSE Fail(e.s, EClasses(e.c))

\* what the client is shown of an element
RElem(e) ==
  CASE e.k = "f" -> [k |-> "f", tag |-> e.tag, pos |-> e.pos, dep |-> e.dep,
                     t |-> e.t, n |-> e.n]
    [] e.k = "x" -> [k |-> "x", n |-> e.n]
    [] OTHER -> R(e.k)

---------------------------------------------------------------------------
(* Signed offsets are pairs <<negative?, magnitude>>.                      *)
\* base + off as a u64, or failure
Offset(base, off) ==
  IF off[1] THEN [ok |-> LeN(off[2], base), v |-> SubN(base, off[2])]
  ELSE [ok |-> ~OvfN(base, off[2]), v |-> AddN(base, off[2])]

---------------------------------------------------------------------------
(* Blob handle operations (s.h = "blob").                                  *)
BlobRead(s, op) ==
  LET full == Min2(MinI(Rem(s), Avail(s)), op.k)
      n    == IF Has(op, "n") THEN op.n ELSE full
  IN IF (n > full) \/ (n = 0 /\ full > 0) THEN {}
     ELSE { Out(RData(Take(s, n)), Adv(s, n)) }

\* read exactly k bytes
BlobReadExact(s, op) ==
  LET full == MinI(Rem(s), Avail(s))
  IN IF op.k <= full THEN { Out(RData(Take(s, op.k)), Adv(s, op.k)) }
     ELSE \* fails; how much was consumed is unspecified (but inside the blob)
          LET n == IF Has(op, "n") THEN op.n ELSE full
          IN IF n > full THEN {} ELSE { Out(RErr("eof"), Adv(s, n)) }

BlobReadFully(s, op) ==
  LET rem == Rem(s)
  IN IF LtN(op.max, rem)
     THEN { Out([k |-> "err", c |-> "large", max |-> op.max, n |-> rem], s) }
     ELSE IF Small(rem) /\ ToInt(rem) <= Avail(s)
     THEN { Out(RData(Take(s, ToInt(rem))), AdvN(s, rem)) }
     ELSE Fail(s, {"trunc", "eof"})

BlobReadTrunc(s, op) ==
  LET want == MinN(Rem(s), op.max)
      n    == MinI(want, Avail(s))
  IN { Out(RData(Take(s, n)), Adv(s, n)) }
     \cup IF N(n) = want THEN {} ELSE Fail(s, {"trunc", "eof"})

BlobSlice(s) ==
  LET rem == Rem(s)
  IN IF Small(rem) /\ ToInt(rem) <= Avail(s)
     THEN { Out(RData(Take(s, ToInt(rem))), s) }
     ELSE { Out(RErr("trunc"), s) }

\* flip every unconsumed byte b to 255 - b in place
BlobSliceMut(s) ==
  LET rem == Rem(s)
      d   == Take(s, ToInt(rem))
  IN IF Small(rem) /\ ToInt(rem) <= Avail(s)
     THEN { Out(RData(d), [s EXCEPT !.b =
              IF d = <<>> THEN s.b ELSE
              Put(s.b, ToInt(s.ip), [i \in 1..Len(d) |-> 255 - d[i]])]) }
     ELSE { Out(RErr("trunc"), s) }

\* the bytes and where in the caller's buffer they are
\* (whether this consumes the blob is left open; the state tells)
BlobExtSlice(s) ==
  LET rem == Rem(s)
  IN IF Small(rem) /\ ToInt(rem) <= Avail(s)
     THEN LET d == Take(s, ToInt(rem))
              r == [k |-> "d", d |-> d,
                    o |-> IF d = <<>> THEN 0 ELSE ToInt(s.ip)]
          IN { Out(r, s), Out(r, AdvN(s, rem)) }
     ELSE { Out(RErr("trunc"), s) }

\* fill_buf, then consume up to k bytes of what it returned
BlobFill(s, op) ==
  LET full == MinI(Rem(s), Avail(s))
      n    == IF Has(op, "n") THEN op.n ELSE full
  IN IF OvfI(s.pos, Avail(s)) THEN Unspec(s)
     ELSE IF (n > full) \/ (n = 0 /\ full > 0) THEN {}
     ELSE { Out(RData(Take(s, n)), Adv(s, Min2(n, op.k))) }

BlobSeek(s, op) ==
  LET inner == SubN(s.bl, Rem(s))
      start == SubN(s.be, s.bl)
      bad   == { Out(RErr("inval"), s) }
      tgt   == CASE op.w = "start" -> [ok |-> LeN(op.u, s.bl), v |-> op.u]
                 [] op.w = "end"   -> [ok |-> /\ (op.i[1] \/ op.i[2] = Zero)
                                              /\ LeN(op.i[2], s.bl),
                                       v |-> SubN(s.bl, op.i[2])]
                 [] op.w = "cur"   ->
                      IF op.i[1]
                      THEN [ok |-> LeN(op.i[2], inner),
                            v |-> SubN(inner, op.i[2])]
                      ELSE [ok |-> LeN(op.i[2], Rem(s)),
                            v |-> AddN(inner, op.i[2])]
      p     == AddN(start, tgt.v)
      fwd   == LeN(s.pos, p)
      disp  == IF fwd THEN SubN(p, s.pos) ELSE SubN(s.pos, p)
  IN IF ~tgt.ok THEN bad
     ELSE IF LtN(I63m1, disp)
          THEN \* farther than a single seek of the transport reaches
               { Out(RErr("io"), s), Out(RErr("inval"), s) }
     ELSE IF (fwd /\ OvfN(s.ip, disp)) \/ (~fwd /\ LtN(s.ip, disp))
          THEN \* the transport itself refuses
               { Out(RErr("inval"), s), Out(RErr("io"), s) }
     ELSE { Out(RNum(tgt.v),
                IF fwd THEN AdvN(s, disp)
                ELSE [s EXCEPT !.pos = p, !.ip = SubN(s.ip, disp)]) }

HwUp(s) == IF s.cm = "dyn" /\ LtN(s.hw, s.pos) THEN [s EXCEPT !.hw = s.pos]
           ELSE s

BlobWrite(s, op) ==
  LET full == MinI(Rem(s), Len(op.d))
      n    == IF Has(op, "n") THEN op.n ELSE full
  IN IF full > 0 /\ FarOff(s) THEN Unspec(s)
     ELSE IF (n > full) \/ (n = 0 /\ full > 0) THEN {}
     ELSE { Out(RNum(N(n)), HwUp(Emit(s, SubSeq(op.d, 1, n)))) }

BlobWriteAll(s, op) ==
  LET full == MinI(Rem(s), Len(op.d))
  IN IF full > 0 /\ FarOff(s) THEN Unspec(s)
     ELSE IF Len(op.d) = full THEN { Out(Ok, HwUp(Emit(s, op.d))) }
     ELSE \* does not fit: an error, and never a byte outside the blob
          LET n == IF Has(op, "n") THEN op.n ELSE full
          IN IF n > full THEN {}
             ELSE { Out(RErr("wz"), HwUp(Emit(s, SubSeq(op.d, 1, n)))) }

---------------------------------------------------------------------------
(* Writing elements.                                                       *)
\* commit, then emit bs
WriteOut(s, bs) ==
  LET c == Commit(s)
  IN IF c.c # "ok" THEN CFail(c)
     ELSE IF FarOff(c.s) THEN Unspec(c.s)
     ELSE IF OvfI(c.s.pos, Len(bs))
          THEN FailW(c.s, Emit(c.s, bs), {"io", "long"})
     ELSE { Out(Ok, Emit(c.s, bs)) }

IntField(tag, u) == <<Desc(TyInt, tag)>> \o EncVar(u)

\* header of a blob of length len (a u64), d its descriptor byte
AllocHdr(d, len) == <<d>> \o EncVar(len)
WriteAlloc(s, d, len, data) ==
  LET c   == Commit(s)
      hdr == AllocHdr(d, len)
      \* the blob does not fit below 2^64
      over  == OvfN(c.s.pos, len) \/ OvfI(AddN(c.s.pos, len), Len(hdr))
      \* it might be refused because a longer header would not fit
      close == OvfN(c.s.pos, len) \/ OvfI(AddN(c.s.pos, len), 11)
      s1  == Emit(c.s, hdr)
      s2  == OpenBlob(s1, len, "fixed")
  IN IF c.c # "ok" THEN CFail(c)
     ELSE IF over THEN Fail(c.s, {"long", "io"})
     ELSE IF close THEN Unspec(c.s)
     ELSE IF FarOff(c.s) THEN Unspec(c.s)
     ELSE { Out(Ok, Emit(s2, data)) }

WriteDyn(s, d) ==
  LET c  == Commit(s)
      s1 == Emit(c.s, <<d>> \o EncFixed(Zero))
      room == SubN(MAX64, c.s.pos)
      len == SubN(MAX64, s1.pos)
      s2 == [OpenBlob(s1, len, "dyn") EXCEPT !.ds = s1.pos, !.hw = s1.pos,
               !.wz = (ToInt(s1.ip) - 9)..ToInt(s1.ip)]
  IN IF c.c # "ok" THEN CFail(c)
     ELSE IF LtN(room, N(11)) THEN Fail(c.s, {"long", "io"})
     ELSE IF FarOff(c.s) THEN Unspec(c.s)
     ELSE { Out(Ok, s2) }

WriteAlign(s, a) ==   \* a: power of two as exponent
  LET c == Commit(s)
      m == IF a <= 28 THEN LowBits(c.s.pos, P2I(a)) ELSE 0
      n == IF m = 0 THEN 0 ELSE P2I(a) - m
  IN IF c.c # "ok" THEN CFail(c)
     ELSE IF FarOff(c.s) THEN Unspec(c.s)
     ELSE LET t == Emit(c.s, [i \in 1..n |-> SpPad])
          IN IF OvfI(c.s.pos, n) THEN FailW(c.s, t, {"io", "long"})
             ELSE { Out(Ok, t) }

---------------------------------------------------------------------------
(* the arguments of typed integer writes: op.u (unsigned) or op.i (signed) *)
IntArg(op) == IF Has(op, "u") THEN op.u ELSE ZigZag(op.i)

BlobOps == {"b_read", "b_exact", "b_fully", "b_trunc", "b_slice",
            "b_slicemut", "b_ext", "b_fill", "b_seek", "b_write", "b_wall",
            "b_flush", "b_look", "b_xread", "b_xwrite"}

BlobOutcomes(s, op) ==
  CASE op.o = "b_read"     -> BlobRead(s, op)
    [] op.o = "b_exact"    -> BlobReadExact(s, op)
    [] op.o = "b_fully"    -> BlobReadFully(s, op)
    [] op.o = "b_trunc"    -> BlobReadTrunc(s, op)
    [] op.o = "b_slice"    -> BlobSlice(s)
    [] op.o = "b_slicemut" -> BlobSliceMut(s)
    [] op.o = "b_ext"      -> BlobExtSlice(s)
    [] op.o = "b_fill"     -> BlobFill(s, op)
    [] op.o = "b_seek"     -> BlobSeek(s, op)
    [] op.o = "b_write"    -> BlobWrite(s, op)
    [] op.o = "b_wall"     -> BlobWriteAll(s, op)
    [] op.o = "b_flush"    -> { Out(Ok, s) }
    [] op.o = "b_look"     -> { Out(Ok, s) }
    \* the underlying stream used directly, and the position set to match
    [] op.o = "b_xread"    ->
         LET n == Min2(MinI(Rem(s), Avail(s)), op.k)
         IN { Out(RData(Take(s, n)), Adv(s, n)) }
    [] op.o = "b_xwrite"   ->
         LET n == MinI(Rem(s), Len(op.d))
         IN IF n > 0 /\ FarOff(s) THEN Unspec(s)
            ELSE { Out(RNum(N(n)), HwUp(Emit(s, SubSeq(op.d, 1, n)))) }

ReadNE(s) ==
  LET e == NextElem(s)
  IN IF e.c # "ok" THEN EFail(e) ELSE { Out(RElem(e), e.s) }

\* next_field: padding dropped, exceptions turned into errors, the two kinds
\* of end not distinguished
ReadNF(s) ==
  LET e == NextNonPad(s)
  IN IF e.c # "ok" THEN EFail(e)
     ELSE CASE e.k = "f" -> { Out(RElem(e), e.s) }
            [] e.k \in {"eos", "eod"} -> { Out(R("none"), e.s) }
            [] e.k = "x" ->
                 LET want == MinI(e.n, 256)
                     n    == Min2(want, Avail(e.s))
                     r    == [k |-> "err", c |-> "exc",
                              d |-> Lossy(Take(e.s, n))]
                     s2   == [Adv(e.s, n) EXCEPT !.h = "none"]
                 IN { Out(r, s2) } \cup
                    IF n = want THEN {} ELSE Fail(e.s, {"trunc", "eof"})

DoSkipUp(s, d) ==
  LET e == SkipUp(s, d)
  IN IF e.c # "ok" THEN EFail(e) ELSE { Out(Ok, e.s) }

\* Field::skip on the field whose handle is held
DoSkip(s) ==
  IF s.h = "sub" THEN DoSkipUp(s, s.hd)
  ELSE { Out(Ok, [s EXCEPT !.h = "none"]) }

\* the value of the field whose handle is held, as something
KindName(t) == CASE t = "i" -> "Integer" [] t = "b" -> "Blob"
                 [] t = "s" -> "Struct" [] t = "e" -> "Enum"
DoAs(s, t) ==
  LET want == CASE t = "blob" -> "Blob" [] t = "struct" -> "Struct"
                [] t = "enum" -> "Enum" [] OTHER -> "Integer"
      got  == KindName(s.ht)
  IN IF want # got
     THEN { Out([k |-> "err", c |-> "type", want |-> want, got |-> got], s) }
     ELSE CASE want = "Enum"    -> { Out([k |-> "as", v |-> s.hv], s) }
            [] want = "Integer" ->
                 LET x == Narrow(t, s.hv)
                 IN { Out(IF x.ok THEN [k |-> "as", v |-> x.v]
                          ELSE RErr("range"), s) }
            [] OTHER -> { Out(Ok, s) }

\* using the stream that is the value of a struct or enum, and being done
\* with it, dropping the field or skipping what is left of it
DoEnter(s) == { Out(Ok, [s EXCEPT !.fs = Append(s.fs, s.hd), !.h = "none"]) }
DoLeave(s, skip) ==
  LET n == Len(s.fs)
      t == [s EXCEPT !.fs = SubSeq(s.fs, 1, n - 1), !.h = "none"]
  IN IF skip THEN DoSkipUp(t, s.fs[n]) ELSE { Out(Ok, t) }

DoSeek(s, op) ==
  LET c == Commit(s)
      t == CASE op.w = "start" -> [ok |-> TRUE, v |-> op.u]
             [] op.w = "end"   -> Offset(N(Len(c.s.b)), op.i)
             [] op.w = "cur"   -> Offset(c.s.ip, op.i)
  IN IF c.c # "ok" THEN CFail(c)
     ELSE IF ~t.ok THEN Fail(c.s, {"inval", "io"})
     ELSE { Out(RNum(t.v), [c.s EXCEPT !.ip = t.v, !.pos = t.v, !.dep = 0]) }

StreamOutcomes(s, op) ==
  CASE op.o = "nf"      -> ReadNF(s)
    [] op.o = "ne"      -> ReadNE(s)
    [] op.o = "skip"    -> DoSkip(s)
    [] op.o = "skip_up" -> DoSkipUp(s, op.d)
    [] op.o = "look"    -> { Out(Ok, [s EXCEPT !.h = "none"]) }
    [] op.o = "as"      -> IF s.h = "none" \/ s.ht = "x" THEN {}
                           ELSE DoAs(s, op.t)
    [] op.o = "enter"   -> IF s.h # "sub" THEN {} ELSE DoEnter(s)
    [] op.o = "leave"   -> IF s.fs = <<>> THEN {} ELSE DoLeave(s, op.skip)
    [] op.o = "commit"  -> LET c == Commit(s)
                           IN IF c.c # "ok" THEN CFail(c)
                              ELSE { Out(Ok, c.s) }
    [] op.o = "set_pos" ->
         IF s.cm # "none" THEN Unspec(s)
         ELSE { Out(Ok, [s EXCEPT !.pos = op.u, !.h = "none"]) }
    [] op.o = "reset_pos" ->
         LET c == Commit(s)
         IN IF c.c # "ok" THEN CFail(c)
            ELSE { Out(Ok, [c.s EXCEPT !.pos = op.u]) }
    [] op.o = "x_read"  ->
         LET c == Commit(s)
             n == Min2(MinI(SubN(MAX64, c.s.pos), Avail(c.s)), op.k)
         IN IF c.c # "ok" THEN CFail(c)
            ELSE { Out(RData(Take(c.s, n)), Adv(c.s, n)) }
    [] op.o = "x_write" ->
         LET c == Commit(s)
             n == MinI(SubN(MAX64, c.s.pos), Len(op.d))
         IN IF c.c # "ok" THEN CFail(c)
            ELSE IF n > 0 /\ FarOff(c.s) THEN Unspec(c.s)
            ELSE { Out(RNum(N(n)), Emit(c.s, SubSeq(op.d, 1, n))) }
    \* the underlying stream moved back directly, an uncommitted blob or not
    [] op.o = "x_back"  ->
         LET n == MinI(s.pos, op.k)
             t == [s EXCEPT !.h = "none"]
         IN IF LtN(s.ip, N(n)) THEN Fail(t, {"inval", "io"})
            ELSE { Out(Ok, [t EXCEPT !.ip = SubN(s.ip, N(n)),
                                     !.pos = SubN(s.pos, N(n))]) }
    [] op.o = "seek"    -> DoSeek(s, op)
    [] op.o = "clear_eof" -> { Out(Ok, [s EXCEPT !.eof = FALSE,
                                                 !.h = "none"]) }
    [] op.o = "graceful"  -> { Out(Ok, [s EXCEPT !.gr = op.v, !.h = "none"]) }
    [] op.o = "set_depth" -> { Out(Ok, [s EXCEPT !.dep = op.d,
                                                 !.h = "none"]) }
    \* writes
    [] op.o = "w_int"   -> WriteOut(s, IntField(op.tag, IntArg(op)))
    [] op.o = "w_struct"-> WriteOut(s, <<Desc(TyStruct, op.tag)>>)
    [] op.o = "w_enum"  -> WriteOut(s, <<Desc(TyEnum, op.tag)>> \o EncVar(op.u))
    [] op.o = "w_eos"   -> WriteOut(s, <<SpEos>>)
    [] op.o = "w_eod"   -> WriteOut(s, <<SpEod>>)
    [] op.o = "w_pad"   -> WriteOut(s, <<SpPad>>)
    [] op.o = "w_align" -> WriteAlign(s, op.a)
    [] op.o = "w_data"  -> WriteAlloc(s, Desc(TyBlob, op.tag), N(Len(op.d)),
                                      op.d)
    [] op.o = "w_alloc" -> WriteAlloc(s, Desc(TyBlob, op.tag), op.u, <<>>)
    [] op.o = "w_dyn"   -> WriteDyn(s, Desc(TyBlob, op.tag))
    [] op.o = "w_xdata" -> WriteAlloc(s, SpExc, N(Len(op.d)), op.d)
    [] op.o = "w_xalloc"-> WriteAlloc(s, SpExc, op.u, <<>>)
    [] op.o = "w_xdyn"  -> WriteDyn(s, SpExc)

\* an invalid tag: a panic, and nothing written by this operation
BadTag(op) == Has(op, "tag") /\ (op.tag = 0 \/ op.tag > 63)
Outcomes(s, op) ==
  IF BadTag(op) THEN LET c == Commit(s)
                     IN { Out(R("panic"), Kill(c.s)) } \cup
                        \* errors of the operation may be noticed first
                        { o \in StreamOutcomes(s, [op EXCEPT !.tag = 1]) :
                            o.r.k # "ok" }
  ELSE IF op.o \in BlobOps
       THEN IF s.h = "blob" THEN BlobOutcomes(s, op) ELSE {}
       ELSE StreamOutcomes(s, op)

---------------------------------------------------------------------------
(* What a client can observe of a state between operations.                *)
ObsOk(s, ob) ==
  CASE ob.k = "none" -> TRUE
    [] ob.k = "s" -> /\ s.h # "blob"
                     /\ ob.p = s.pos /\ ob.d = s.dep /\ ob.e = s.eof
                     /\ ob.g = s.gr
    [] ob.k = "b" -> /\ s.h = "blob"
                     /\ ob.p = s.pos
                     /\ ob.len = s.bl
                     /\ ob.en = s.be
                     /\ ob.rem = Rem(s)
                     /\ ob.ip = SubN(s.bl, Rem(s))
                     /\ ob.st = SubN(s.be, s.bl)

(* State invariants of the machine.                                        *)
TypeOK(s) ==
  /\ s.cm \in {"none", "read", "fixed", "dyn"}
  /\ s.h \in {"none", "blob", "int", "sub"}
  /\ s.dep \in Nat
  /\ s.h = "blob" => s.cm # "none"
\* the client is inside the window of the blob it holds
BlobWindow(s) ==
  (s.h = "blob" /\ ~s.dd) =>
     /\ LeN(s.pos, s.be)
     /\ LeN(s.bl, s.be)
     /\ LeN(SubN(s.be, s.bl), s.pos)
EofDepth(s) == (s.eof /\ ~s.dd) => s.dep \in Nat
=============================================================================
