----------------------------- MODULE MpqCrypt ------------------------------
(***************************************************************************)
(* The published MPQ functions: the encryption table, the name hash and the *)
(* block cipher, exactly, as functions on 32-bit words.                     *)
(***************************************************************************)
EXTENDS U32, U64, Names, TLC, SequencesExt

\* --- encryption table: 1280 words from a linear congruential generator ---
NextSeed(s) == (s * 125 + 3) % 2796203              \* 0x2AAAAB
SeedStep(acc, i) == LET t == NextSeed(acc[1]) IN <<t, Append(acc[2], t % 65536)>>
\* the generator runs index1 outer (0..255), i inner (0..4), two draws each
Draws == FoldLeft(SeedStep, <<1048577, <<>>>>, [i \in 1..2560 |-> i])[2]   \* 0x00100001
CryptTable == [k \in 0..1279 |->
                 LET i == k \div 256
                     j == k % 256
                     d == (j * 5 + i) * 2
                 IN  <<Draws[d + 1], Draws[d + 2]>>]

\* --- name hash ---
TABLE_OFFSET == 0
NAME_A == 1
NAME_B == 2
FILE_KEY == 3
HashStep(acc, c0, type) ==
  LET c  == NormByte(c0)
      n1 == WXor(CryptTable[type * 256 + c], WAdd(acc[1], acc[2]))
      n2 == WAdd(WAdd(WAdd(FromNat(c), n1), WAdd(acc[2], WShl(acc[2], 5))), FromNat(3))
  IN  <<n1, n2>>
\* seeds 0x7FED7FED, 0xEEEEEEEE
HashString(name, type) ==
  FoldLeft(LAMBDA acc, c : HashStep(acc, c, type), <<<<32749, 32749>>, <<61166, 61166>>>>, name)[1]
\* --- hash of the extended tables (one at a time, 64 bits, lower case), as <<hi, lo>> words ---
LowByteOf(c0) == LET c == NormByte(c0) IN IF c \in 65..90 THEN c + 32 ELSE c
JenkinsStep(h, c) == LET a == QAdd(h, <<LowByteOf(c), 0, 0, 0>>)
                         b == QAdd(a, QShl(a, 10))
                     IN  QXor(b, QShr(b, 6))
Jenkins(name) == LET h == FoldLeft(LAMBDA acc, c : JenkinsStep(acc, c), QZero, name)
                     a == QAdd(h, QShl(h, 3))
                     b == QXor(a, QShr(a, 11))
                     q == QAdd(b, QShl(b, 15))
                 IN  <<<<q[4], q[3]>>, <<q[2], q[1]>>>>
\* --- block cipher on a sequence of words ---
NextKey(k) == WOr(WAdd(Shl21(WNot(k)), <<4369, 4369>>), WShr(k, 11))
\* state of the fold: <<key, seed, output>>
CryptStep(acc, w, enc) ==
  LET key == acc[1]
      s == WAdd(acc[2], CryptTable[1024 + LowByte(key)])
      x == WXor(w, WAdd(key, s))
      plain == IF enc THEN w ELSE x
  IN  <<NextKey(key),
        WAdd(WAdd(WAdd(plain, s), WShl(s, 5)), FromNat(3)),
        Append(acc[3], x)>>
Crypt(ws, key, enc) ==
  FoldLeft(LAMBDA acc, w : CryptStep(acc, w, enc), <<key, <<61166, 61166>>, <<>>>>, ws)[3]
Encrypt(ws, key) == IF key = Zero THEN ws ELSE Crypt(ws, key, TRUE)
Decrypt(ws, key) == IF key = Zero THEN ws ELSE Crypt(ws, key, FALSE)
=============================================================================
