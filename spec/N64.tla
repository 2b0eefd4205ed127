-------------------------------- MODULE N64 --------------------------------
(***************************************************************************)
(* 64-bit unsigned arithmetic for TLC, whose integers are 32 bits wide.    *)
(* A u64 is a triple <<lo, mid, hi>> in base 2^28: lo and mid hold 28 bits *)
(* each and hi the remaining 8.  Base 2^28 makes the limbs line up with    *)
(* the 7-bit groups of fourleaf's integers: lo = groups 1-4, mid = groups  *)
(* 5-8, hi = groups 9-10.                                                  *)
(* A signed number is a pair <<negative?, magnitude>>.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

B28 == 268435456

N(i)    == <<i % B28, i \div B28, 0>>      \* from a TLC integer 0..2^31-1
Zero    == <<0, 0, 0>>
One     == <<1, 0, 0>>
MAX64   == <<B28 - 1, B28 - 1, 255>>
I63     == <<0, 0, 128>>                   \* 2^63
I63m1   == <<B28 - 1, B28 - 1, 127>>       \* 2^63 - 1

Small(a)  == a[3] = 0 /\ a[2] < 4          \* fits 2^30
ToInt(a)  == a[2] * B28 + a[1]             \* only if Small(a)

LtN(a, b) == \/ a[3] < b[3]
             \/ a[3] = b[3] /\ a[2] < b[2]
             \/ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]
LeN(a, b) == a = b \/ LtN(a, b)
MinN(a, b) == IF LtN(a, b) THEN a ELSE b

(* a + b modulo 2^64 *)
AddN(a, b) == LET l == a[1] + b[1]
                  m == a[2] + b[2] + l \div B28
                  h == a[3] + b[3] + m \div B28
              IN <<l % B28, m % B28, h % 256>>
(* does a + b exceed 2^64 - 1? *)
OvfN(a, b) == LET l == a[1] + b[1]
                  m == a[2] + b[2] + l \div B28
              IN a[3] + b[3] + m \div B28 > 255
(* a - b modulo 2^64 *)
SubN(a, b) == LET l == a[1] - b[1]
                  m == a[2] - b[2] + (IF l < 0 THEN -1 ELSE 0)
                  h == a[3] - b[3] + (IF m < 0 THEN -1 ELSE 0)
              IN <<l % B28, m % B28, h % 256>>

AddI(a, i) == AddN(a, N(i))
OvfI(a, i) == OvfN(a, N(i))

(* shifts by one bit *)
ShrN(a) == <<(a[1] + (a[2] % 2) * B28) \div 2,
             (a[2] + (a[3] % 2) * B28) \div 2,
             a[3] \div 2>>
ShlN(a) == AddN(a, a)

OddN(a) == a[1] % 2 = 1

(* a mod 2^k for k <= 28 *)
LowBits(a, p2) == a[1] % p2

(* 2^k as a u64, k in 0..63 *)
P2I(k) == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
            16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152,
            4194304, 8388608, 16777216, 33554432, 67108864,
            134217728>>[k + 1]
P2N(k) == IF k < 28 THEN <<P2I(k), 0, 0>>
          ELSE IF k < 56 THEN <<0, P2I(k - 28), 0>>
          ELSE <<0, 0, P2I(k - 56)>>

(* ---- ZigZag ---- *)
(* signed pair <<neg, mag>>; mag > 0 when neg; mag <= 2^63 *)
ZigZag(x)   == IF x[1] THEN SubN(ShlN(x[2]), One) ELSE ShlN(x[2])
UnZigZag(u) == IF OddN(u) THEN <<TRUE, AddN(ShrN(u), One)>>
                          ELSE <<FALSE, ShrN(u)>>

(* range of an integer type with b bits *)
InUnsigned(u, b) == b = 64 \/ LtN(u, P2N(b))
InSigned(x, b)   == IF x[1] THEN LeN(x[2], P2N(b - 1))
                            ELSE LtN(x[2], P2N(b - 1))
=============================================================================
