----------------------------- MODULE TraceSchema -----------------------------
(***************************************************************************)
(* Checks sessions with the typed layer, recorded from the real library,   *)
(* against modules Schema and Deser.                                       *)
(*                                                                         *)
(* Every line of the file named by TRACE is one session [id, ops].  There  *)
(* is a current document; the operations are                               *)
(*   open  [d, gr]            it is d from now on                          *)
(*   ser   [t, v, app, r, d]  v was serialised: the document is what was   *)
(*                            written, d, or is extended by it             *)
(*   reser [t, r, d]          the value last deserialised was              *)
(*   de    [t, en, zc, cfg, r, p, flt, al]   the document was deserialised *)
(* en names the entry point: slc, slb, rd start at the beginning of the    *)
(* document, stc, stb, smc continue with a stream over it (p: the position *)
(* of the stream afterwards).                                              *)
(*   arr   [el, n, sup, ..]   arrays of n elements el                      *)
(*                                                                         *)
(* Aspects selects what counts:                                            *)
(*   accept whether there is a value    value  which                       *)
(*   off    where borrowed data lies    pos    the position afterwards     *)
(*   class  the class of an error       limit  ... as far as limits go     *)
(*   path   its place                   detail its details                 *)
(*   bytes  what ser writes             reser  what reser writes           *)
(*   rt     what was serialised is deserialised                            *)
(*   alloc  memory in use               exc    text of exceptions          *)
(*   fault  faults of the transport are reported                           *)
(***************************************************************************)
EXTENDS TypedAspects, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,  \* the session
          j,  \* operations done
          D,  \* the document
          G,  \* graceful end of input?
          P,  \* state of the stream over it
          L,  \* the value deserialised last
          Q,  \* values serialised into the document: [t, v, d, n (how many
              \* of them the stream has passed)]
          v   \* verdict
vars == <<i, j, D, G, P, L, Q, v>>

OneShot(ev) == ev.en \in {"slc", "slb", "rd"}
Beginning == [InitState(D, FALSE) EXCEPT !.gr = G]
Fresh     == [InitState(D, FALSE) EXCEPT !.gr = FALSE]
Nothing == [on |-> FALSE, s |-> <<>>]
\* (there is one stream; using one over the other kind of input starts afresh)
Goes(ev) == P.on /\ P.mem = (ev.en = "smc")
Passed(ev) == IF Goes(ev) THEN Q.n ELSE 0

---------------------------------------------------------------------------
AllocOk(ev) ==
  (On("alloc") /\ Has(ev, "al")) => ev.al <= 256 + (200 * Len(D)) \div 1024

---------------------------------------------------------------------------
\* the deserialisation of what was serialised: the n-th message of the
\* document is w
RtDue(ev) ==
  LET n == IF OneShot(ev) THEN 1 ELSE Passed(ev) + 1
  IN IF On("rt") /\ n <= Len(Q.t) /\ (OneShot(ev) \/ Passed(ev) >= 0)
     THEN IF Q.t[n] = ev.t
             /\ FromBytes(ev.t, SerBody(ev.t, Q.v[n]), ev.cfg, ev.zc).ok
          THEN n ELSE 0
     ELSE 0
RECURSIVE SumLen(_, _)
SumLen(ds, n) == IF n = 0 THEN 0 ELSE Len(ds[n]) + SumLen(ds, n - 1)
RtOk(ev, n) ==
  n > 0 => /\ ev.r.k = "v"
           /\ VEq(ev.t, Q.v[n], ev.r.v, FALSE)
           /\ Has(ev, "p") => ev.p = N(SumLen(Q.d, n))

---------------------------------------------------------------------------
Init == /\ i \in 1..Len(Sessions)
        /\ j = 0
        /\ D = <<>> /\ G = FALSE
        /\ P = Nothing /\ L = Nothing
        /\ Q = [t |-> <<>>, v |-> <<>>, d |-> <<>>, n |-> 0]
        /\ v = "ok"

Ev == Sessions[i].ops[j + 1]
More == v # "bad" /\ j < Len(Sessions[i].ops)
Show(m) == IF m.ok THEN ToString(<<"value", m.v, m.s.pos>>) ELSE ToString(m.e)
Report(kind, what, m) == PrintT(<<kind, Sessions[i].id, j + 1, ToJson(Ev), ToString(<<what, m>>)>>)
\* the verdict given the aspects in which there is a difference
Judge(diff, m) ==
  IF diff = {} THEN v' = v
  ELSE IF diff \cap (Aspects \cup {"panic"}) # {}
       THEN v' = "bad" /\ Report("BAD", diff, m)
       ELSE v' = v /\ Report("OFF", diff, m)

StepOpen == /\ More /\ Ev.o = "open"
            /\ D' = Ev.d /\ G' = Ev.gr /\ P' = Nothing
            /\ Q' = [t |-> <<>>, v |-> <<>>, d |-> <<>>, n |-> 0]
            /\ j' = j + 1 /\ UNCHANGED <<i, L, v>>

Written(ev, d, aspect) ==
  LET exp == IF Writable(d) THEN "ok" ELSE "panic"
  IN IF ev.r = exp /\ (exp = "ok" => ev.d = d) THEN {}
     ELSE IF ev.r = "panic" THEN {"panic"} ELSE {aspect}

StepSer == /\ More /\ Ev.o = "ser"
           /\ LET d == SerBody(Ev.t, Ev.v)
              IN Judge(Written(Ev, d, "bytes"), d)
           /\ D' = (IF Ev.app THEN D ELSE <<>>) \o Ev.d
           /\ G' = FALSE /\ P' = Nothing
           /\ Q' = LET q == IF Ev.app THEN Q ELSE [t |-> <<>>, v |-> <<>>, d |-> <<>>, n |-> 0]
                   IN [t |-> Append(q.t, Ev.t), v |-> Append(q.v, Ev.v),
                       d |-> Append(q.d, Ev.d), n |-> 0]
           /\ j' = j + 1 /\ UNCHANGED <<i, L>>

StepReser == /\ More /\ Ev.o = "reser"
             /\ LET d == SerBody(Ev.t, L.s)
                IN Judge(Written(Ev, d, "reser"), d)
             /\ D' = Ev.d /\ G' = FALSE /\ P' = Nothing
             /\ Q' = [t |-> <<Ev.t>>, v |-> <<L.s>>, d |-> <<Ev.d>>, n |-> 0]
             /\ j' = j + 1 /\ UNCHANGED <<i, L>>

StepDe ==
  /\ More /\ Ev.o = "de"
  /\ LET ev == Ev
         s  == IF OneShot(ev) THEN Fresh ELSE IF Goes(ev) THEN P.s ELSE Beginning
         m  == Deserialise(ev.t, s, ev.cfg, ev.zc)
         n  == RtDue(ev)
         df == (IF Faulty(ev) THEN DiffF(m, ev) ELSE Diff(m, ev))
               \cup (IF RtOk(ev, n) THEN {} ELSE {"rt"})
               \cup (IF AllocOk(ev) THEN {} ELSE {"alloc"})
         \* (where the code stands is not known any more)
         lost == ~OneShot(ev) /\ Goes(ev) /\ P.lost
     IN /\ IF lost THEN IF ev.r.k = "panic" \/ ~AllocOk(ev)
                        THEN Judge({"panic"}, "lost") ELSE v' = v
           ELSE IF df = {} THEN v' = v
           ELSE IF df \cap (Aspects \cup {"panic"}) # {}
                THEN v' = "bad" /\ Report("BAD", df, Show(m))
                ELSE v' = v /\ Report("OFF", df, Show(m))
        /\ P' = IF OneShot(ev) THEN P
                ELSE [on |-> TRUE, s |-> m.s, mem |-> ev.en = "smc",
                      lost |-> lost \/ df # {}]
        /\ L' = IF ev.r.k = "v" THEN [on |-> TRUE, s |-> ev.r.v] ELSE L
        /\ Q' = IF OneShot(ev) THEN Q
                ELSE [Q EXCEPT !.n = IF n > 0 THEN n ELSE -1]
  /\ j' = j + 1 /\ UNCHANGED <<i, D, G>>

---------------------------------------------------------------------------
(* Arrays of each size there is to be: [el, n, sup, ..].  el is one of u8  *)
(* (written as one blob), u16 and String (one field for each element).     *)
ArrSizes == (0..32) \cup { 2^k : k \in 6..24 }
ArrOk(ev) ==
  LET n    == ev.n
      whole == ev.el = "u8"
      es   == CASE ev.el = "u8" -> 1
                [] ev.el = "u16" -> Len(IntOf(1, N(300)))
                [] ev.el = "String" -> Len(BlobOf(1, <<48, 48>>))
      hd   == <<Desc(TyBlob, 1)>> \o EncVar(N(n))
      wrote(w, h, e) ==
        /\ w.k = "ok" /\ w.hd = h /\ w.same /\ w.end = e
        /\ w.len = Len(h) + n * es + Len(e)
      value(r) == r.k = "v" /\ r.same
      isErr(r, c) == r.k = "err" /\ r.c = c
      place(r, ps) == [ k \in 1..Len(r.path) |-> r.path[k][2] ] = [ k \in 1..Len(ps) |-> N(ps[k]) ]
      cls(r, m) == IF whole THEN isErr(r, "msg")
                   ELSE IF m > n THEN isErr(r, "many") /\ r.n = N(n)
                   ELSE IF m = 0 THEN isErr(r, "req")
                   ELSE isErr(r, "few") /\ r.n = N(n)
      pos(m) == IF whole THEN 0 ELSE IF m > n THEN n * es ELSE m * es + 1
      Unless(a, ok) == IF ok THEN {} ELSE {a}
      Same(r) == Unless("accept", r.k = "v") \cup Unless("rt", value(r)) \cup Unless("value", r.k # "v" \/ r.same)
      Fails(r, m) == Unless("accept", r.k = "err") \cup Unless("class", cls(r, m))
  IN IF n \notin ArrSizes THEN {}
     ELSE IF Has(ev, "r") THEN {"panic"}
     ELSE IF ~ev.sup THEN {"bytes", "rt", "accept"}
     ELSE Unless("bytes", /\ wrote(ev.w, IF whole THEN hd ELSE <<>>, <<SpEos>>)
                     /\ wrote(ev.wn, IF whole THEN hd ELSE <<Desc(TyStruct, 1)>>,
                              IF whole THEN <<SpEos>> ELSE <<SpEos, SpEos>>))
          \cup Same(ev.rt) \cup Same(ev.rtn)
          \cup Fails(ev.lo, n + 1) \cup Fails(ev.lon, n + 1)
          \cup Unless("path", ev.lo.k = "err" => place(ev.lo, <<pos(n + 1)>>))
          \cup Unless("path", ev.lon.k = "err" =>
                 place(ev.lon, IF whole THEN <<0>> ELSE <<0, 1 + pos(n + 1)>>))
          \cup (IF n = 0 THEN Same(ev.no)
                ELSE Unless("accept", ev.no.k = "err") \cup Unless("class", isErr(ev.no, "req"))
                     \cup Fails(ev.sh, n - 1) \cup Fails(ev.shn, n - 1)
                     \cup Unless("path", ev.sh.k = "err" => place(ev.sh, <<pos(n - 1)>>))
                     \cup Unless("path", ev.shn.k = "err" =>
                            place(ev.shn, IF whole THEN <<0>> ELSE <<0, 1 + pos(n - 1)>>)))
StepArr == /\ More /\ Ev.o = "arr"
           /\ Judge(ArrOk(Ev), "arr")
           /\ j' = j + 1 /\ UNCHANGED <<i, D, G, P, L, Q>>

Next == StepOpen \/ StepArr \/ StepSer \/ StepReser \/ StepDe
Spec == Init /\ [][Next]_vars

Post == PrintT(<<"TOTAL", Len(Sessions), TLCGet("distinct")>>)
=============================================================================
