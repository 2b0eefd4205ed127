------------------------------ MODULE TraceWire ------------------------------
(***************************************************************************)
(* Checks calls of the integer and descriptor functions recorded from the  *)
(* real library against module Wire.  Every line of TRACE is a list of     *)
(* calls (field calls), each with its arguments and results:               *)
(*   enc, encf, enci  encodings of u, u in fixed width, signed i as d      *)
(*   dec, deci        decoding of b: r, value v, n bytes consumed          *)
(*   zz, unzz         ZigZag of i is u; and back                           *)
(*   to               narrowing the integer u to type t: r, v              *)
(*   de               deserialising the field u as type t: r, v            *)
(*   desc             the descriptor byte b: kind k, tag, re-encoded       *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, j, v

CallOk(c) ==
  CASE c.f = "enc"  -> c.d = EncVar(c.u)
    [] c.f = "encf" -> c.d = EncFixed(c.u)
    [] c.f = "enci" -> c.d = EncVar(ZigZag(c.i))
    [] c.f = "dec"  -> LET x == DecVar(c.b, 0)
                       IN c.r = x.r /\ c.n = x.n /\ (x.r = "ok" => c.v = x.v)
    [] c.f = "deci" -> LET x == DecVar(c.b, 0)
                       IN c.r = x.r /\ c.n = x.n
                          /\ (x.r = "ok" => c.v = UnZigZag(x.v))
    [] c.f = "zz"   -> c.u = ZigZag(c.i)
    [] c.f = "unzz" -> c.i = UnZigZag(c.u)
    [] c.f \in {"to", "de"} ->
         LET x == Narrow(c.t, c.u)
         IN IF x.ok THEN c.r = "ok" /\ c.v = x.v ELSE c.r = "range"
    [] c.f = "panic" -> FALSE
    [] c.f = "desc" ->
         LET t == DescTag(c.b)
         IN /\ c.tag = t /\ c.back = c.b
            /\ c.k = IF t = 0
                     THEN CASE c.b = SpEos -> "eos" [] c.b = SpEod -> "eod"
                            [] c.b = SpExc -> "x" [] c.b = SpPad -> "p"
                     ELSE CASE DescTy(c.b) = TyEnum -> "e"
                            [] DescTy(c.b) = TyInt -> "i"
                            [] DescTy(c.b) = TyBlob -> "b"
                            [] DescTy(c.b) = TyStruct -> "s"

Init == i \in 1..Len(Lines) /\ j = 0 /\ v = "ok"
Next == /\ j < Len(Lines[i].calls)
        /\ j' = j + 1
        /\ IF CallOk(Lines[i].calls[j + 1]) THEN v' = "ok"
           ELSE v' = "bad" /\ PrintT(<<"BAD", Lines[i].id, j + 1,
                                       ToJson(Lines[i].calls[j + 1]), "">>)
        /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, j, v>>
Post == PrintT(<<"TOTAL", Len(Lines), TLCGet("distinct")>>)
=============================================================================
