----------------------------- MODULE TraceMixed -----------------------------
(***************************************************************************)
(* Checks recorded sessions which use both layers on the same stream: the  *)
(* operations of TraceStream, and between them those of module Mixed.  Of  *)
(* the result r of a typed operation "rec" tells that recovery succeeded.  *)
(***************************************************************************)
EXTENDS Mixed, TypedAspects, IOUtils


Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, j, S, v

NOps(q) == Len(q.ops)
Init == /\ i \in 1..Len(Sessions)
        /\ j = 0
        /\ S = { InitState(Sessions[i].init, Sessions[i].seek) }
        /\ v = "ok"

Report(kind, x) ==
  PrintT(<<kind, Sessions[i].id, j + 1,
           IF j < NOps(Sessions[i]) THEN ToJson(Sessions[i].ops[j + 1])
           ELSE "fin", ToString(<<S, x>>)>>)

---------------------------------------------------------------------------
\* the aspects in which the result differs; those of the stream's state too
TDiff(o, ev) ==
  IF o.s.dd /\ o.s.fb = "free" THEN IF Panicked(ev.r) THEN {"panic"} ELSE {}
  ELSE Diff(o.m, [ev EXCEPT !.r = IF Has(ev.r, "rec") THEN [x \in DOMAIN ev.r \ {"rec"} |-> ev.r[x]] ELSE ev.r])
       \cup (IF o.s.dd THEN {}
             ELSE IF ev.ob.k # "s" THEN {"kind"}
             ELSE {a \in {"pos", "depth", "eof"} :
                      CASE a = "pos" -> ev.ob.p # o.s.pos
                        [] a = "depth" -> ev.ob.d # o.s.dep
                        [] a = "eof" -> ev.ob.e # o.s.eof \/ ev.ob.g # o.s.gr})
       \cup (IF ev.o = "t_rec" /\ ev.r.k = "err" /\ ~o.m.ok /\ o.m.e.c # "stream"
                /\ (o.s.dd # (~Has(ev.r, "rec")))
             THEN {"kind"} ELSE {})

AllSteps(s, ev) ==
  IF s.dd THEN { Out(R("any"), [s EXCEPT !.fb = "free"]) }
  ELSE IF ev.o = "t_ser" THEN SerOutcomes(s, ev) ELSE Steps(s, ev)

---------------------------------------------------------------------------
StepLow(ev) ==
  LET T == UNION { AllSteps(s, ev) : s \in S }
      M == { o \in T : Full(o, ev) }
  IN IF M # {} THEN S' = { o.s : o \in M } /\ v' = "ok"
     ELSE /\ S' = {}
          /\ IF \E o \in T : Asp(o, ev)
             THEN v' = "off" /\ Report("OFF", "")
             ELSE v' = "bad" /\ Report("BAD", "")
StepTyped(ev) ==
  LET T == IF \E s \in S : s.dd
           THEN { TOut(Start0(s, ev.cfg), Lost(s)) : s \in S }
           ELSE UNION { TypedOutcomes(s, ev) : s \in S }
      M == { o \in T : TDiff(o, ev) = {} }
  IN IF M # {} THEN S' = { o.s : o \in M } /\ v' = "ok"
     ELSE /\ S' = {}
          /\ LET what == { <<TDiff(o, ev), IF o.m.ok THEN ToString(o.m.v) ELSE ToString(o.m.e)>> : o \in T }
             IN IF \E o \in T : TDiff(o, ev) \cap (Aspects \cup {"panic"}) = {}
                THEN v' = "off" /\ Report("OFF", what)
                ELSE v' = "bad" /\ Report("BAD", what)

Next ==
  /\ v = "ok" /\ UNCHANGED i /\ j' = j + 1
  /\ IF j < NOps(Sessions[i])
     THEN LET ev == Sessions[i].ops[j + 1]
          IN IF Typed(ev) THEN StepTyped(ev) ELSE StepLow(ev)
     ELSE /\ j = NOps(Sessions[i])
          /\ S' = { s \in S : ~On("bytes") \/ FinOk(s, Sessions[i].fin) }
          /\ IF S' = {} THEN v' = "bad" /\ Report("BAD", "") ELSE v' = "ok"

Spec == Init /\ [][Next]_<<i, j, S, v>>
Inv == \A s \in S : TypeOK(s) /\ BlobWindow(s)
Post == PrintT(<<"TOTAL", Len(Sessions), TLCGet("distinct")>>)
=============================================================================
