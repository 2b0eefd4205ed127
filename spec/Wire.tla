-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The physical format: descriptors, base-128 integers, and the text       *)
(* conversions used on blobs.  Byte strings are sequences over 0..255.     *)
(***************************************************************************)
EXTENDS N64, FiniteSets

\* ---- descriptors --------------------------------------------------------
\* upper two bits: type; lower six: tag
TyEnum == 0   TyInt == 1   TyBlob == 2   TyStruct == 3
DescTy(b)  == b \div 64
DescTag(b) == b % 64
Desc(ty, tag) == ty * 64 + tag
\* tag 0: the special elements
SpEos == 0   SpEod == 64   SpExc == 128   SpPad == 192

\* ---- integers -----------------------------------------------------------
\* the k-th (0-based) 7-bit group of u
Group(u, k) ==
  CASE k < 4            -> (u[1] \div P2I(7 * k)) % 128
    [] k >= 4 /\ k < 8  -> (u[2] \div P2I(7 * (k - 4))) % 128
    [] k = 8            -> u[3] % 128
    [] OTHER            -> u[3] \div 128

\* number of groups of the shortest encoding
NGroups(u) == IF u[3] >= 128 THEN 10
              ELSE IF u[3] > 0 THEN 9
              ELSE IF u[2] > 0
                   THEN IF u[2] < 128 THEN 5
                        ELSE IF u[2] < 16384 THEN 6
                        ELSE IF u[2] < 2097152 THEN 7 ELSE 8
              ELSE IF u[1] < 128 THEN 1
                   ELSE IF u[1] < 16384 THEN 2
                   ELSE IF u[1] < 2097152 THEN 3 ELSE 4

EncVar(u)   == LET n == NGroups(u)
               IN [i \in 1..n |-> Group(u, i - 1) + IF i < n THEN 128 ELSE 0]
EncFixed(u) == [i \in 1..10 |-> Group(u, i - 1) + IF i < 10 THEN 128 ELSE 0]

\* the widest encoding a reader is bound to accept
MaxVarBytes == 256

\* put 7-bit value v into group k of the accumulator
PutGroup(acc, k, v) ==
  CASE k < 4            -> <<acc[1] + v * P2I(7 * k), acc[2], acc[3]>>
    [] k >= 4 /\ k < 8  -> <<acc[1], acc[2] + v * P2I(7 * (k - 4)), acc[3]>>
    [] k = 8            -> <<acc[1], acc[2], acc[3] + v>>
    [] OTHER            -> <<acc[1], acc[2], acc[3] + v * 128>>

(* Decode the integer at offset i (0-based) of b, of which only the bytes   *)
(* before offset lim are available.  r: "ok" | "eof" | "ovf" | "wide"; n is *)
(* the number of bytes read.                                                *)
RECURSIVE DecVarK(_, _, _, _, _)
DecVarK(b, i, lim, k, acc) ==
  IF i + k >= lim THEN [r |-> "eof", v |-> acc, n |-> k]
  ELSE LET c == b[i + k + 1]
           v == c % 128
           bad == v # 0 /\ (k > 9 \/ (k = 9 /\ v > 1))
           acc2 == IF v = 0 THEN acc ELSE PutGroup(acc, k, v)
       IN IF bad THEN [r |-> "ovf", v |-> acc, n |-> k + 1]
          ELSE IF c < 128 THEN [r |-> "ok", v |-> acc2, n |-> k + 1]
          ELSE IF k >= MaxVarBytes THEN [r |-> "wide", v |-> acc, n |-> k + 1]
          ELSE DecVarK(b, i, lim, k + 1, acc2)
DecVar(b, i) == DecVarK(b, i, Len(b), 0, Zero)

\* ---- UTF-8 --------------------------------------------------------------
(* One step of the UTF-8 decoder at offset i (1-based) of s: the number of  *)
(* bytes of the scalar value starting there (ok) or of the maximal prefix   *)
(* of an ill-formed one (not ok).                                           *)
Utf8At(s, i) ==
  LET c == s[i]
      cont(k, lo, hi) == i + k <= Len(s) /\ s[i + k] >= lo /\ s[i + k] <= hi
  IN CASE c < 128 -> [ok |-> TRUE, n |-> 1]
       [] c >= 194 /\ c <= 223 ->
            IF cont(1, 128, 191) THEN [ok |-> TRUE, n |-> 2]
            ELSE [ok |-> FALSE, n |-> 1]
       [] c >= 224 /\ c <= 239 ->
            LET lo == IF c = 224 THEN 160 ELSE 128
                hi == IF c = 237 THEN 159 ELSE 191
            IN IF ~cont(1, lo, hi) THEN [ok |-> FALSE, n |-> 1]
               ELSE IF ~cont(2, 128, 191) THEN [ok |-> FALSE, n |-> 2]
               ELSE [ok |-> TRUE, n |-> 3]
       [] c >= 240 /\ c <= 244 ->
            LET lo == IF c = 240 THEN 144 ELSE 128
                hi == IF c = 244 THEN 143 ELSE 191
            IN IF ~cont(1, lo, hi) THEN [ok |-> FALSE, n |-> 1]
               ELSE IF ~cont(2, 128, 191) THEN [ok |-> FALSE, n |-> 2]
               ELSE IF ~cont(3, 128, 191) THEN [ok |-> FALSE, n |-> 3]
               ELSE [ok |-> TRUE, n |-> 4]
       [] OTHER -> [ok |-> FALSE, n |-> 1]

\* every byte which continues nothing starts a scalar value, and every byte
\* which continues lies within the one started before it
ValidUtf8(s) ==
  \A i \in 1..Len(s) :
    IF s[i] \div 64 # 2 THEN Utf8At(s, i).ok
    ELSE \E k \in 1..3 : /\ k < i
                         /\ s[i - k] \div 64 # 2
                         /\ LET u == Utf8At(s, i - k) IN u.ok /\ u.n > k

\* lossy conversion: U+FFFD for every maximal ill-formed prefix
RECURSIVE LossyFrom(_, _)
LossyFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET u == Utf8At(s, i)
       IN (IF u.ok THEN SubSeq(s, i, i + u.n - 1) ELSE <<239, 191, 189>>)
          \o LossyFrom(s, i + u.n)
Lossy(s) == LossyFrom(s, 1)

\* is u the number of a Unicode scalar value?
IsScalar(u) == /\ u[3] = 0 /\ u[2] = 0 /\ u[1] < 1114112
               /\ ~(u[1] >= 55296 /\ u[1] <= 57343)
---------------------------------------------------------------------------
(* Narrowing.                                                              *)
Bits(t) == CASE t \in {"u8", "i8"} -> 8 [] t \in {"u16", "i16"} -> 16
             [] t \in {"u32", "i32"} -> 32 [] OTHER -> 64
Unsigned == {"u8", "u16", "u32", "u64", "usize"}
Signed   == {"i8", "i16", "i32", "i64", "isize"}
\* [ok, v]: does the integer u (as encoded) fit type t, and as what?
Narrow(t, u) ==
  CASE t \in Unsigned -> [ok |-> InUnsigned(u, Bits(t)), v |-> u]
    [] t \in Signed   -> [ok |-> InSigned(UnZigZag(u), Bits(t)),
                          v |-> UnZigZag(u)]
    [] t = "bool"     -> [ok |-> LeN(u, One), v |-> u]
    [] t = "null"     -> [ok |-> u = Zero, v |-> u]
    [] t = "char"     -> [ok |-> IsScalar(u), v |-> u]

=============================================================================
