-------------------------------- MODULE Copy --------------------------------
(***************************************************************************)
(* Copying elements from one stream to another.  A state is a record       *)
(*   s  the stream read from          d  the stream written to             *)
(*   e  what the client was last shown by s: the element it holds (the     *)
(*      result of "ne" or "nf"), or [k |-> "no"]                           *)
(* Operations are those of either stream (at = "s", "d") and               *)
(*   copy   write the element held to d                                    *)
(***************************************************************************)
EXTENDS Aspects

NoElem == R("no")
Pair(s, d, e) == [s |-> s, d |-> d, e |-> e]
Holding(p) == p.e.k \in {"f", "x", "eos", "eod", "p"}
IsBlob(e)  == e.k = "x" \/ (e.k = "f" /\ e.t = "b")
POut(r, p) == [r |-> r, p |-> p]

\* copying the blob which is being read, from its beginning
CopyBlob(p) ==
  LET s   == p.s
      hdr == WriteAlloc(p.d, IF p.e.k = "x" THEN SpExc
                             ELSE Desc(TyBlob, p.e.tag), s.bl, <<>>)
      n   == MinI(s.bl, Avail(s))
      dat == Take(s, n)
      one(o) ==
        IF o.r # Ok THEN { POut(o.r, [p EXCEPT !.d = o.s]) }
        ELSE LET d2 == [Emit(o.s, dat) EXCEPT !.h = "none"]
             IN { POut(Ok, Pair(Adv(s, n), d2, p.e)) }
                \cup IF N(n) = s.bl THEN {}
                     ELSE { POut(RErr(c), Pair(Kill(s), KillW(p.d, d2), p.e)) :
                              c \in {"eof", "trunc", "wz", "incomplete", "io"} }
  IN IF Rem(s) # s.bl
     THEN \* (what copying the remainder of a blob means is nowhere said)
          { POut(R("any"), Pair(Kill(s), [Kill(p.d) EXCEPT !.fb = "free"], p.e)) }
     ELSE UNION { one(o) : o \in hdr }

CopyOutcomes(p) ==
  LET e == p.e
      plain(bs) == { POut(o.r, [p EXCEPT !.d = o.s]) : o \in WriteOut(p.d, bs) }
  IN CASE ~Holding(p) -> {}
       [] IsBlob(e)    -> CopyBlob(p)
       [] e.k = "eos" -> plain(<<SpEos>>)
       [] e.k = "eod" -> plain(<<SpEod>>)
       [] e.k = "p"   -> plain(<<SpPad>>)
       [] e.t = "i"   -> plain(IntField(e.tag, e.n))
       [] e.t = "s"   -> plain(<<Desc(TyStruct, e.tag)>>)
       [] e.t = "e"   -> plain(<<Desc(TyEnum, e.tag)>> \o EncVar(e.n))

\* the element held after operation op of s with result r
Held(p, op, r) == IF op.o \in {"ne", "nf"} THEN IF r.k = "err" THEN NoElem ELSE r
                  ELSE IF op.o \in BlobOps THEN p.e ELSE NoElem

PairOutcomes(p, op) ==
  IF op.o = "copy" THEN CopyOutcomes(p)
  ELSE IF op.at = "s"
  THEN { POut(o.r, Pair(o.s, p.d, Held(p, op, o.r))) : o \in Outcomes(p.s, op) }
  ELSE { POut(o.r, Pair(p.s, o.s, p.e)) : o \in Outcomes(p.d, op) }
=============================================================================
