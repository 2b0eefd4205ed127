----------------------------- MODULE TraceStream -----------------------------
(***************************************************************************)
(* Checks sessions recorded from the real library against module Stream.   *)
(*                                                                         *)
(* Every line of the file named by TRACE is one session:                   *)
(*   [id, seek, init, ops, fin]                                            *)
(* ops are operations (see Stream!Outcomes) with the result r and the      *)
(* observation ob made after it; fin is the final content of the           *)
(* underlying buffer.  Transport faults are part of the record: flt =      *)
(* "hard" when a transfer failed during the operation, "seek" when a seek  *)
(* did; intr when the transport interrupted a transfer.                    *)
(*                                                                         *)
(* The specification is nondeterministic, so a session is followed by the  *)
(* set S of the states it can be in; a session is conforming iff S never   *)
(* becomes empty.  PROP names the property being decided; it selects the   *)
(* aspects (ASPECTS, a comma-separated list turned into a set by the       *)
(* driver) a deviation must concern to count.  A deviation which concerns  *)
(* none of them ends the session without a verdict.                        *)
(***************************************************************************)
EXTENDS Aspects, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, j, S, v

NOps(q) == Len(q.ops)

---------------------------------------------------------------------------
Start(q) == InitState(q.init, q.seek)

Init == /\ i \in 1..Len(Sessions)
        /\ j = 0
        /\ S = { Start(Sessions[i]) }
        /\ v = "ok"

Report(kind) ==
  PrintT(<<kind, Sessions[i].id, j + 1,
           IF j < NOps(Sessions[i]) THEN ToJson(Sessions[i].ops[j + 1])
           ELSE "fin", ToString(S)>>)

\* C20: memory in KB for an operation on what is there, whatever is claimed
AllocOk(ev) ==
  (On("alloc") /\ Has(ev, "al")) =>
     1024 * (ev.al - 64) <= 4 * Len(Sessions[i].init)
                            + 4 * (IF Has(ev, "k") THEN ev.k ELSE 0)
                            + 8 * (IF ev.o \in {"w_data", "w_xdata", "b_write", "b_wall"} THEN Len(ev.d) ELSE 0)

StepOp ==
  LET ev == Sessions[i].ops[j + 1]
      T  == UNION { Steps(s, ev) : s \in S }
      M  == { o \in T : Full(o, ev) }
  IN /\ j < NOps(Sessions[i])
     /\ j' = j + 1
     /\ IF ~AllocOk(ev) THEN S' = {} /\ v' = "bad" /\ Report("BAD")
        ELSE IF M # {} THEN S' = { o.s : o \in M } /\ v' = "ok"
        ELSE /\ S' = {}
             /\ IF \E o \in T : Asp(o, ev)
                THEN /\ v' = IF On("kind") THEN "off" ELSE "lost"
                     /\ Report("OFF")
                ELSE v' = "bad" /\ Report("BAD")

StepFin ==
  /\ j = NOps(Sessions[i])
  /\ j' = j + 1
  /\ S' = { s \in S : ~On("bytes") \/ FinOk(s, Sessions[i].fin) }
  /\ IF S' = {} THEN v' = "bad" /\ Report("BAD") ELSE v' = "ok"

\* what the stream should do is not known any more, except that it must not
\* panic
StepLost ==
  LET ev == Sessions[i].ops[j + 1]
  IN /\ v = "lost" /\ j < NOps(Sessions[i]) /\ j' = j + 1 /\ S' = S
     /\ IF (Panicked(ev.r) /\ ~BadTag(ev)) \/ ~AllocOk(ev)
        THEN v' = "bad" /\ Report("BAD") ELSE v' = v

Next == /\ \/ v = "ok" /\ (StepOp \/ StepFin)
           \/ StepLost
        /\ UNCHANGED i

Spec == Init /\ [][Next]_<<i, j, S, v>>

\* the invariants of the machine hold along every real session as well
Inv == \A s \in S : TypeOK(s) /\ BlobWindow(s)

\* the number of states a completely accepted set of sessions has
Total == LET RECURSIVE Sum(_)
             Sum(k) == IF k = 0 THEN 0 ELSE NOps(Sessions[k]) + 2 + Sum(k - 1)
         IN Sum(Len(Sessions))
Post == PrintT(<<"TOTAL", Len(Sessions), TLCGet("distinct")>>)
=============================================================================
