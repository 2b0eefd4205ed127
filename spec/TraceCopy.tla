------------------------------ MODULE TraceCopy ------------------------------
(***************************************************************************)
(* Checks recorded sessions with two streams against module Copy.  A       *)
(* session is [id, seek, init, dinit, ops, fin]: operations with result r  *)
(* and observations ob (of the stream used; of the source for copy) and od *)
(* (of the destination, for copy).                                         *)
(***************************************************************************)
EXTENDS Copy, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, j, S, v

Q == Sessions[i]
Ev == Q.ops[j + 1]

\* with a failing transport
CFaulted(p, ev) ==
  LET q == Pair(Kill(p.s), p.d, NoElem)
  IN IF ev.o = "copy" \/ ev.at = "d"
     THEN { POut(RErr("io"), [q EXCEPT !.d = [Kill(p.d) EXCEPT
                 !.fb = IF o.p.d.fb = "free" THEN "free" ELSE "mix", !.hb = o.p.d.b, !.wz = p.d.wz \cup o.p.d.wz]])
              : o \in PairOutcomes(p, ev) }
     ELSE { POut(RErr("io"), q) }
Flt(ev) == Has(ev, "flt")
CSteps(p, ev) ==
  IF (ev.o = "copy" \/ ev.at = "d") /\ p.d.dd
  THEN { POut(R("any"), [p EXCEPT !.d.fb = "free"]) }
  ELSE IF ev.o # "copy" /\ ev.at = "s" /\ p.s.dd THEN { POut(R("any"), p) }
  ELSE IF Flt(ev) /\ ev.flt = "hard" THEN CFaulted(p, ev)
  ELSE (IF Flt(ev) THEN CFaulted(p, ev) ELSE {}) \cup PairOutcomes(p, ev)
       \cup IF Has(ev, "intr") /\ ev.o \in {"b_read", "b_seek"}
            THEN { POut(RErr("intr"), p) } ELSE {}

Agree(o, ev, full) ==
  LET ro(r) == IF full THEN ev.r = r ELSE ProjR(ev.r) = ProjR(r)
      ob(s, b) == s.dd \/ IF full THEN ObsOk(s, b) ELSE AspObs(s, b)
  IN IF o.r.k = "any" THEN ~Panicked(ev.r)
     ELSE /\ ro(o.r)
          /\ IF ev.o = "copy" THEN ob(o.p.s, ev.ob) /\ ob(o.p.d, ev.od)
             ELSE IF ev.at = "s" THEN ob(o.p.s, ev.ob) ELSE ob(o.p.d, ev.ob)

Init == /\ i \in 1..Len(Sessions)
        /\ j = 0
        /\ S = { Pair(InitState(Q.init, Q.seek), InitState(Q.dinit, FALSE), NoElem) }
        /\ v = "ok"

Report(kind) ==
  PrintT(<<kind, Q.id, j + 1, IF j < Len(Q.ops) THEN ToJson(Ev) ELSE "fin",
           ToString(S)>>)

StepOp ==
  /\ j < Len(Q.ops) /\ j' = j + 1
  /\ LET T == UNION { CSteps(p, Ev) : p \in S }
         M == { o \in T : Agree(o, Ev, TRUE) }
     IN IF M # {} THEN S' = { o.p : o \in M } /\ v' = "ok"
        ELSE /\ S' = {}
             /\ IF \E o \in T : Agree(o, Ev, FALSE)
                THEN v' = "off" /\ Report("OFF") ELSE v' = "bad" /\ Report("BAD")
StepFin ==
  /\ j = Len(Q.ops) /\ j' = j + 1
  /\ S' = { p \in S : ~On("bytes") \/ FinOk(p.d, Q.fin) }
  /\ IF S' = {} THEN v' = "bad" /\ Report("BAD") ELSE v' = "ok"

Next == v = "ok" /\ (StepOp \/ StepFin) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, j, S, v>>

Inv == \A p \in S : /\ TypeOK(p.s) /\ BlobWindow(p.s)
                    /\ TypeOK(p.d) /\ BlobWindow(p.d)
Post == PrintT(<<"TOTAL", Len(Sessions), TLCGet("distinct")>>)
=============================================================================
