---------------------------- MODULE TypedAspects ----------------------------
(***************************************************************************)
(* Comparing what was recorded of a deserialisation with what modules      *)
(* Schema and Deser say: in which aspects do the two differ?               *)
(***************************************************************************)
EXTENDS Aspects, Deser

\* is the input not the caller's slice (nothing can be borrowed)?
InMem(ev)   == ev.en \in {"rd", "smc"}

---------------------------------------------------------------------------
IsLimit(c) == c \in {"rec", "maxc", "maxb"}
Cls(r) == IF r.k = "v" THEN "ok" ELSE IF r.k = "err" THEN r.c ELSE r.k

DetailOk(e, r) ==
  CASE e.c = "unkf" -> r.tag = e.x[1] /\ r.at = e.x[2]
    [] e.c \in {"unkv", "few", "many"} -> r.n = e.x[1]
    [] e.c = "stream" -> r.se = "type" => (r.want = e.x[1] /\ r.got = e.x[2])
    [] OTHER -> TRUE
ExcOk(e, r) ==
  (e.c = "stream" /\ r.c = "stream" /\ r.se = "exc" /\ "exc" \in e.se) => r.d = e.x[1]
ClassOk(e, r) == r.c = e.c /\ (e.c = "stream" => r.se \in e.se)

\* the set of the aspects in which outcome m and the recorded result differ
Diff(m, ev) ==
  LET r == ev.r
  IN IF r.k = "panic" THEN {"panic"}
     ELSE IF m.ok # (r.k = "v")
     THEN {"accept"} \cup
          (IF (~m.ok /\ IsLimit(m.e.c)) \/ (r.k = "err" /\ IsLimit(r.c))
           THEN {"limit"} ELSE {})
     ELSE IF m.ok
     THEN (IF VEq(ev.t, m.v, r.v, FALSE) THEN
             IF InMem(ev) \/ VEq(ev.t, m.v, r.v, TRUE) THEN {} ELSE {"off"}
           ELSE {"value"})
          \cup (IF Has(ev, "p") /\ ev.p # m.s.pos THEN {"pos"} ELSE {})
     ELSE (IF ClassOk(m.e, r)
           THEN (IF DetailOk(m.e, r) THEN {} ELSE {"detail"})
                \cup (IF ExcOk(m.e, r) THEN {} ELSE {"exc"})
           ELSE {"class"} \cup (IF IsLimit(m.e.c) \/ IsLimit(r.c)
                                THEN {"limit"} ELSE {})
                \cup (IF m.e.c = "stream" /\ "exc" \in m.e.se /\ Cardinality(m.e.se) = 1
                      THEN {"exc"} ELSE {}))
          \cup (IF r.path = m.e.path THEN {} ELSE {"path"})

\* a transport fault: an I/O error, unless what had to be read was read
Faulty(ev) == Has(ev, "flt") /\ ev.flt
DiffF(m, ev) ==
  IF ev.r.k = "panic" THEN {"panic"}
  ELSE IF ev.r.k = "err" /\ ev.r.c = "stream" /\ ev.r.se = "io" THEN {}
  ELSE IF Diff(m, ev) = {} THEN {} ELSE {"fault"}
=============================================================================
