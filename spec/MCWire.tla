------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* The integer formats themselves: what property C01 says of them, checked *)
(* for a set of values that covers every bit length and group boundary,    *)
(* and for every short byte string.                                        *)
(***************************************************************************)
EXTENDS Wire, TLC, SequencesExt

CONSTANTS Alphabet, MaxLen, Shard, Shards
VARIABLES kind, val

Bnd == UNION { { P2N(k), SubN(P2N(k), One), AddN(P2N(k), One),
                 SubN(P2N(k), N(2)), AddN(P2N(k), P2N(k \div 2)) } : k \in 0..63 }
       \cup { MAX64, Zero, SubN(MAX64, One), <<11184810, 178956970, 170>>,
              <<89478485, 89478485, 85>>, <<55296, 0, 0>>, <<57343, 0, 0>>,
              <<1114111, 0, 0>>, <<1114112, 0, 0>> }
Pads == {1, 2, 3, 5, 8, 9, 10, 11, 60, 246}

\* widen an encoding by p empty groups
Denorm(d, p) == [k \in 1..(Len(d) + p) |->
                   IF k < Len(d) THEN d[k]
                   ELSE IF k = Len(d) THEN d[k] + 128
                   ELSE IF k < Len(d) + p THEN 128 ELSE 0]
Rest == {<<>>, <<0>>, <<255, 1>>}

FromVal(u) ==
  LET d == EncVar(u)
      f == EncFixed(u)
      good(x, w) == \E r \in {DecVar(x \o w, 0)} :
                       r.r = "ok" /\ r.v = u /\ r.n = Len(x)
  IN /\ \A w \in Rest : good(d, w) /\ good(f, w)
     /\ Len(f) = 10
     \* unique shortest form: no proper prefix decodes, no leading zero group
     /\ \A n \in 0..(Len(d) - 1) : DecVar(SubSeq(d, 1, n), 0).r = "eof"
     /\ Len(d) > 1 => d[Len(d)] # 0
     /\ \A p \in Pads : good(Denorm(d, p), <<7>>)
     /\ ZigZag(UnZigZag(u)) = u
     /\ InUnsigned(u, 64) /\ InSigned(UnZigZag(u), 64)
     /\ \A b \in {8, 16, 32} : InUnsigned(u, b) => InUnsigned(u, 2 * b)
     /\ \A b \in {8, 16, 32} :
          InSigned(UnZigZag(u), b) <=> LtN(u, P2N(b))

Strs(n) == [1..n -> Alphabet]
\* a byte string decodes to a value iff it is a denormalised encoding of it
FromStr(s) ==
  LET r == DecVar(s, 0)
  IN /\ r.n <= Len(s)
     /\ r.r = "ok" => /\ LET d == EncVar(r.v)
                         IN /\ r.n >= Len(d)
                            /\ SubSeq(s, 1, r.n) =
                               (IF r.n = Len(d) THEN d
                                ELSE Denorm(d, r.n - Len(d)))
     /\ r.r = "eof" => \A k \in 1..Len(s) : s[k] >= 128
     /\ r.r \in {"ok", "eof", "ovf"}

Start == \/ kind = "val" /\ val \in Bnd
         \/ kind = "str" /\ val \in UNION { Strs(n) : n \in 0..MaxLen }
         \* long strings around the 64-bit limit
         \/ kind = "str" /\ val \in { [k \in 1..(9 + n) |->
                                        IF k <= 9 THEN a ELSE t[k - 9]] :
                                      a \in {128, 129, 255}, n \in 1..2,
                                      t \in Strs(2) }
\* An exploration is split over Shards processes of TLC with one worker each
\* (several workers in one process would share the values of the
\* specification, which TLC normalises in place while others read them).
InShard(q) == FoldLeft(LAMBDA a, x : (3 * a + x) % 1009, 0, q) % Shards = Shard

Init == Start /\ InShard(val)
Next == UNCHANGED <<kind, val>>
Spec == Init /\ [][Next]_<<kind, val>>
Prop == IF kind = "val" THEN FromVal(val) ELSE FromStr(val)
=============================================================================
