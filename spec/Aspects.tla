------------------------------- MODULE Aspects -------------------------------
(***************************************************************************)
(* Comparing what was recorded of one operation with an outcome of module  *)
(* Stream: wholly (Full), or only in the aspects that count (Asp).  And    *)
(* the steps the environment adds: transfers that fail or are interrupted. *)
(***************************************************************************)
EXTENDS Stream

CONSTANT Aspects

---------------------------------------------------------------------------
On(a) == a \in Aspects

\* results reduced to the aspects that count
ProjR(r) ==
  CASE ~On("kind") -> <<IF r.k = "panic" THEN "panic" ELSE "">>
    [] r.k = "err" ->
         <<"err",
           IF On("class") THEN r.c
           ELSE IF r.c = "exc" /\ On("exc") THEN "exc" ELSE "",
           IF r.c = "exc" /\ On("exc") THEN r.d ELSE <<>>,
           IF On("class") /\ Has(r, "n") THEN r.n ELSE Zero,
           IF On("class") /\ Has(r, "got") THEN <<r.want, r.got>> ELSE <<>> >>
    [] r.k = "f" -> <<"f",
           IF On("elem") THEN <<r.tag, r.t, r.n>> ELSE <<>>,
           IF On("pos") THEN r.pos ELSE Zero,
           IF On("depth") THEN r.dep ELSE 0>>
    [] r.k = "x" -> <<"x", IF On("elem") THEN r.n ELSE Zero>>
    [] r.k = "as" -> <<"as", IF On("elem") THEN r.v ELSE <<>> >>
    [] r.k = "n" -> <<"n", IF On("num") THEN r.n ELSE Zero>>
    [] r.k = "d" -> <<"d", IF On("data") THEN r.d ELSE <<>>,
           IF On("alias") /\ Has(r, "o") THEN r.o ELSE 0>>
    [] OTHER -> <<r.k>>

AspObs(s, ob) ==
  CASE ob.k = "none" -> TRUE
    [] ob.k = "s" -> /\ s.h # "blob"
                     /\ On("pos") => ob.p = s.pos
                     /\ On("depth") => ob.d = s.dep
                     /\ On("eof") => ob.e = s.eof /\ ob.g = s.gr
    [] ob.k = "b" -> /\ s.h = "blob"
                     /\ On("pos") => ob.p = s.pos
                     /\ On("handle") => /\ ob.len = s.bl
                                        /\ ob.en = s.be
                                        /\ ob.rem = Rem(s)
                                        /\ ob.ip = SubN(s.bl, Rem(s))
                                        /\ ob.st = SubN(s.be, s.bl)

Panicked(r) == r.k = "panic"

\* does what was recorded agree with outcome o?
Full(o, ev) ==
  IF o.s.dd /\ o.r.k = "any" THEN ~Panicked(ev.r) \/ BadTag(ev)
  ELSE ev.r = o.r /\ (o.s.dd \/ ObsOk(o.s, ev.ob))
Asp(o, ev) ==
  IF o.s.dd /\ o.r.k = "any" THEN ~Panicked(ev.r) \/ BadTag(ev)
  ELSE ProjR(ev.r) = ProjR(o.r) /\ (o.s.dd \/ AspObs(o.s, ev.ob))

---------------------------------------------------------------------------
(* Faults.  A failed transfer ends the operation with an I/O error; the    *)
(* bytes of the buffer are somewhere between before and after.             *)
Faulted(s, ev) ==
  { Out(RErr("io"), [Kill(s) EXCEPT !.fb = "mix", !.hb = o.s.b,
                      !.wz = s.wz \cup o.s.wz])
      : o \in Outcomes(s, ev) }
Interrupted(s, ev) ==
  IF Has(ev, "intr") /\ ev.o \in {"b_read", "b_fill", "b_write", "b_seek"}
  THEN { Out(RErr("intr"), s) } ELSE {}

\* operations that may change the buffer
Writing == {"b_slicemut", "b_xwrite", "x_write", "b_write", "b_wall", "w_int", "w_struct", "w_enum",
            "w_eos", "w_eod", "w_pad", "w_align", "w_data", "w_alloc",
            "w_dyn", "w_xdata", "w_xalloc", "w_xdyn"}

Steps(s, ev) ==
  IF s.dd THEN { Out(R("any"), IF ev.o \in Writing THEN [s EXCEPT !.fb = "free"]
                               ELSE s) }
  ELSE IF Has(ev, "flt") /\ ev.flt = "hard" THEN Faulted(s, ev)
  ELSE IF Has(ev, "flt") THEN Faulted(s, ev) \cup Outcomes(s, ev)
  ELSE Outcomes(s, ev) \cup Interrupted(s, ev)

FinOk(s, fin) ==
  LET \* bytes k of fin and of a agree
      eq(k, a) == k <= Len(a) /\ (fin[k] = a[k] \/ k \in s.wz)
      eqUpTo(n, a) == \A k \in 1..n : eq(k, a)
  IN CASE s.fb = "exact" -> Len(fin) = Len(s.b) /\ eqUpTo(Len(fin), s.b)
       [] s.fb = "mid"   -> /\ Len(s.b) <= Len(fin) /\ eqUpTo(Len(s.b), s.b)
                            /\ eqUpTo(Len(fin), s.hb)
       [] s.fb = "mix"   -> /\ Len(s.b) <= Len(fin) \/ Len(s.hb) <= Len(fin)
                            /\ \A k \in 1..Len(fin) : eq(k, s.b) \/ eq(k, s.hb)
       [] s.fb = "free"  -> TRUE

=============================================================================
