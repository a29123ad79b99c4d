-------------------------------- MODULE U32 --------------------------------
(***************************************************************************)
(* 32-bit words.  TLC integers are 32-bit signed, so a word is a pair of    *)
(* 16-bit halves <<hi, lo>>.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

W(hi, lo) == <<hi, lo>>
Zero == <<0, 0>>
FromNat(n) == <<n \div 65536, n % 65536>>          \* 0 <= n < 2^31
Half == 65536

WAdd(a, b) == LET lo == a[2] + b[2]
             IN  <<(a[1] + b[1] + (lo \div Half)) % Half, lo % Half>>
WSub(a, b) == LET lo == a[2] - b[2]
             IN  <<(a[1] - b[1] - (IF lo < 0 THEN 1 ELSE 0)) % Half, lo % Half>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
WNot(a)  == <<65535 - a[1], 65535 - a[2]>>

Pow2 == [i \in 0..16 |-> 2^i]
\* logical shifts by 0 <= n <= 16
WShl(a, n) == LET lo == (a[2] % Pow2[16 - n]) * Pow2[n]
                 hi == (a[1] % Pow2[16 - n]) * Pow2[n] + (a[2] \div Pow2[16 - n])
             IN  <<hi, lo>>
WShr(a, n) == LET hi == a[1] \div Pow2[n]
                 lo == (a[2] \div Pow2[n]) + (a[1] % Pow2[n]) * Pow2[16 - n]
             IN  <<hi, lo>>
Shl21(a) == WShl(WShl(a, 16), 5)
LowByte(a) == a[2] % 256

\* little-endian bytes <-> words
WordAt(bytes, i) == <<bytes[i + 2] + 256 * bytes[i + 3], bytes[i] + 256 * bytes[i + 1]>>
WordsOf(bytes) == [i \in 1..(Len(bytes) \div 4) |-> WordAt(bytes, 4 * i - 3)]
\* total order (unsigned)
WLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* value as a TLC integer when it fits
Fits(a) == a[1] < 32768
ToNat(a) == a[1] * Half + a[2]
=============================================================================
