------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words for TLC, whose integers have 32 bits only.                *)
(*                                                                         *)
(* A word is a tuple of 16-bit limbs, most significant first: a word of 64 *)
(* bits (a timestamp, an INT64 value, the bits of a double) has four, a    *)
(* word of 32 bits (INT32, the bits of a float) has two.  Signed numbers   *)
(* are in two's complement.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

LOCAL K == 65536

(* A sequence f[1..n] as an explicit tuple: TLC would otherwise evaluate   *)
(* the body again at every access.                                         *)
Tup(f, n) == IF n <= 0 THEN <<>> ELSE SubSeq(TLCEval(f), 1, n)

W64FromBytes(B, o) == \* the 8 bytes of B after the first o
    << B[o+1]*256 + B[o+2], B[o+3]*256 + B[o+4], B[o+5]*256 + B[o+6], B[o+7]*256 + B[o+8] >>
W32FromBytes(B, o) == << B[o+1]*256 + B[o+2], B[o+3]*256 + B[o+4] >>

Zero64 == <<0, 0, 0, 0>>

Add64(a, b) ==
    LET s4 == a[4] + b[4]
        s3 == a[3] + b[3] + (s4 \div K)
        s2 == a[2] + b[2] + (s3 \div K)
        s1 == a[1] + b[1] + (s2 \div K)
    IN  << s1 % K, s2 % K, s3 % K, s4 % K >>

Add32(a, b) ==
    LET s2 == a[2] + b[2]
        s1 == a[1] + b[1] + (s2 \div K)
    IN  << s1 % K, s2 % K >>

Not64(a) == << 65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4] >>
Neg64(a) == Add64(Not64(a), <<0, 0, 0, 1>>)
IsNeg(w) == w[1] >= 32768

(* Sign extension of a 32-bit word.                                        *)
Extend64(w) == IF IsNeg(w) THEN << 65535, 65535, w[1], w[2] >> ELSE << 0, 0, w[1], w[2] >>

(* Unsigned comparison of words of the same length.                        *)
LtU(a, b) ==
    \/ a[1] < b[1]
    \/ a[1] = b[1] /\ \/ a[2] < b[2]
                      \/ a[2] = b[2] /\ Len(a) = 4 /\ \/ a[3] < b[3]
                                                      \/ a[3] = b[3] /\ a[4] < b[4]

FlipSign(w) == [w EXCEPT ![1] = (@ + 32768) % K]
(* Signed comparison.                                                      *)
LtS(a, b) == LtU(FlipSign(a), FlipSign(b))
LeS(a, b) == a = b \/ LtS(a, b)

(* A 64-bit word as a natural number if it is below 2^31, else -1.         *)
SmallNat(w) == IF w[1] = 0 /\ w[2] = 0 /\ w[3] < 32768 THEN w[3] * K + w[4] ELSE -1

-----------------------------------------------------------------------------
(* Floating point: the bits of a float (32) or double (64).                *)

Exp32(w) == (w[1] \div 128) % 256
IsNaN32(w) == Exp32(w) = 255 /\ (w[1] % 128 # 0 \/ w[2] # 0)
IsInf32(w) == Exp32(w) = 255 /\ w[1] % 128 = 0 /\ w[2] = 0
Exp64(w) == (w[1] \div 16) % 2048
IsNaN64(w) == Exp64(w) = 2047 /\ (w[1] % 16 # 0 \/ w[2] # 0 \/ w[3] # 0 \/ w[4] # 0)
IsInf64(w) == Exp64(w) = 2047 /\ ~IsNaN64(w)

(* An unsigned key that orders floats as numbers, both zeros being equal.  *)
FloatKey(w) ==
    IF w[1] = 32768 /\ w[2] = 0 THEN << 32768, 0 >>
    ELSE IF IsNeg(w) THEN << 65535 - w[1], 65535 - w[2] >>
    ELSE << w[1] + 32768, w[2] >>

-----------------------------------------------------------------------------
(* Exact sums.  A Big is a tuple of BigLen limbs, LEAST significant first, *)
(* each possibly above 16 bits until it is normalised; its unit is 2^-149, *)
(* the smallest positive float.                                            *)
BigLen == 26
UnitShift == 149
BigZero == [i \in 1..BigLen |-> 0]

(* acc + l * 2^shift for a 16-bit l                                        *)
AddLimb(acc, l, shift) ==
    IF l = 0 THEN acc
    ELSE LET i == (shift \div 16) + 1
             x == l * (2 ^ (shift % 16))
         IN  [acc EXCEPT ![i] = @ + (x % K), ![i+1] = @ + (x \div K)]

AddWord64(acc, w, shift) ==
    AddLimb(AddLimb(AddLimb(AddLimb(acc, w[4], shift), w[3], shift + 16), w[2], shift + 32), w[1], shift + 48)

(* acc plus the absolute value of a finite float.                          *)
AddFloat32(acc, w) ==
    LET e == Exp32(w)
        s == IF e = 0 THEN 0 ELSE e - 1
        hi == (w[1] % 128) + (IF e = 0 THEN 0 ELSE 128)
    IN  AddLimb(AddLimb(acc, w[2], s), hi, s + 16)

(* acc plus the absolute value of a finite double; bits below 2^-149 are   *)
(* dropped.                                                                *)
AddFloat64(acc, w) ==
    LET e == Exp64(w)
        \* value = m * 2^(e-1075), m of 53 bits
        s == e - 1075 + UnitShift
        m == << (w[1] % 16) + (IF e = 0 THEN 0 ELSE 16), w[2], w[3], w[4] >>
    IN  IF s >= 0 THEN AddWord64(acc, m, s)
        ELSE IF s <= -53 THEN acc
        ELSE \* shift right by -s bits
             LET d == (-s) \div 16
                 r == 2 ^ ((-s) % 16)
                 Limb(i) == IF i < 1 THEN 0 ELSE m[i]
                 Sh(i) == (Limb(i-d) \div r) + ((Limb(i-d-1) % r) * (K \div r))
             IN  AddWord64(acc, << Sh(1), Sh(2), Sh(3), Sh(4) >>, 0)

(* Overflow of the representation (beyond 2^267) is excluded by the        *)
(* callers, which bound the magnitude of doubles.                          *)
Normal(acc) ==
    LET step(st, l) == LET x == l + st[2] IN << Append(st[1], x % K), x \div K >>
    IN  FoldLeft(step, << <<>>, 0 >>, acc)[1]

BigAdd(a, b) == Normal(Tup([i \in 1..BigLen |-> a[i] + b[i]], BigLen))

(* Comparison of normalised Bigs.                                          *)
BigLe(a, b) ==
    LET diff == { i \in 1..BigLen : a[i] # b[i] }
    IN  IF diff = {} THEN TRUE
        ELSE LET i == CHOOSE j \in diff : \A k \in diff : k <= j
             IN  a[i] < b[i]

(* a - b for normalised a >= b                                             *)
BigSub(a, b) ==
    LET step(st, i) ==
          LET x == a[i] - b[i] - st[2]
          IN  IF x < 0 THEN << Append(st[1], x + K), 1 >> ELSE << Append(st[1], x), 0 >>
    IN  FoldLeft(step, << <<>>, 0 >>, [i \in 1..BigLen |-> i])[1]

BigDist(a, b) == IF BigLe(b, a) THEN BigSub(a, b) ELSE BigSub(b, a)

(* a * 2^(16 * n)                                                          *)
BigShift(a, n) == Tup([i \in 1..BigLen |-> IF i <= n THEN 0 ELSE a[i-n]], BigLen)
BigTopZero(a, n) == \A i \in (BigLen - n + 1)..BigLen : a[i] = 0
(* a * k for a small k                                                     *)
BigMul(a, k) ==
    LET lo == Tup([i \in 1..BigLen |-> (a[i] * (k % 128))], BigLen)
        hi == Tup([i \in 1..BigLen |-> (a[i] * ((k \div 128) % 128))], BigLen)
        n1 == Normal(lo)
        n2 == Normal(hi)
        n3 == Normal(Tup([i \in 1..BigLen |-> n2[i] * 128], BigLen))
    IN  BigAdd(n1, n3)
=============================================================================
