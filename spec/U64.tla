-------------------------------- MODULE U64 --------------------------------
(* 64-bit words as four 16-bit limbs, the lowest first. *)
EXTENDS Integers, Sequences, Bitwise
QZero == <<0, 0, 0, 0>>
QAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div 65536
      s3 == a[3] + b[3] + s2 \div 65536
      s4 == a[4] + b[4] + s3 \div 65536
  IN  <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
QXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
\* shifts by 0 < n < 16
QShl(a, n) == LET up == 2^n
                  dn == 2^(16 - n)
              IN  <<(a[1] % dn) * up, (a[2] % dn) * up + a[1] \div dn, (a[3] % dn) * up + a[2] \div dn, (a[4] % dn) * up + a[3] \div dn>>
QShr(a, n) == LET up == 2^(16 - n)
                  dn == 2^n
              IN  <<a[1] \div dn + (a[2] % dn) * up, a[2] \div dn + (a[3] % dn) * up, a[3] \div dn + (a[4] % dn) * up, a[4] \div dn>>
=============================================================================
