------------------------------- MODULE Bloom -------------------------------
(***************************************************************************)
(* The bloom filter of the footer: 128-bit Murmur hash, the format's seeds *)
(* and the sizes its design error rate of 5 % requires.                    *)
(***************************************************************************)
EXTENDS Words, Bitwise

(* 64-bit arithmetic on words of four limbs.                               *)
Xor64(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>

(* Bytes of a word, least significant first.                               *)
LE(a) == << a[4] % 256, a[4] \div 256, a[3] % 256, a[3] \div 256,
            a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256 >>

(* Product modulo 2^64, by columns of byte products.                       *)
Mul64(a, b) ==
    LET x == LE(a)
        y == LE(b)
        c1 == x[1]*y[1]
        c2 == x[1]*y[2] + x[2]*y[1] + (c1 \div 256)
        c3 == x[1]*y[3] + x[2]*y[2] + x[3]*y[1] + (c2 \div 256)
        c4 == x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1] + (c3 \div 256)
        c5 == x[1]*y[5] + x[2]*y[4] + x[3]*y[3] + x[4]*y[2] + x[5]*y[1] + (c4 \div 256)
        c6 == x[1]*y[6] + x[2]*y[5] + x[3]*y[4] + x[4]*y[3] + x[5]*y[2] + x[6]*y[1] + (c5 \div 256)
        c7 == x[1]*y[7] + x[2]*y[6] + x[3]*y[5] + x[4]*y[4] + x[5]*y[3] + x[6]*y[2] + x[7]*y[1] + (c6 \div 256)
        c8 == x[1]*y[8] + x[2]*y[7] + x[3]*y[6] + x[4]*y[5] + x[5]*y[4] + x[6]*y[3] + x[7]*y[2] + x[8]*y[1] + (c7 \div 256)
    IN  << (c8 % 256)*256 + (c7 % 256), (c6 % 256)*256 + (c5 % 256),
           (c4 % 256)*256 + (c3 % 256), (c2 % 256)*256 + (c1 % 256) >>

Rotl64(a, n) ==
    LET q == n \div 16
        r == n % 16
        At(i) == a[((i - 1 + q) % 4) + 1]
        L(i) == IF r = 0 THEN At(i)
                ELSE ((At(i) * (2^r)) % 65536) + (At(i+1) \div (2^(16-r)))
    IN  << L(1), L(2), L(3), L(4) >>

(* Logical shift right by 33 bits.                                         *)
Shr33(a) == << 0, 0, a[1] \div 2, (a[1] % 2) * 32768 + (a[2] \div 2) >>

C1 == << 34755, 31633, 4418, 21461 >>      \* 0x87c37b91114253d5
C2 == << 19701, 44355, 10053, 37759 >>     \* 0x4cf5ad432745937f
F1 == << 65361, 45015, 60757, 36045 >>     \* 0xff51afd7ed558ccd
F2 == << 50382, 47614, 6789, 60499 >>      \* 0xc4ceb9fe1a85ec53
D1 == << 0, 0, 21212, 59177 >>             \* 0x52dce729
D2 == << 0, 0, 14409, 23221 >>             \* 0x38495ab5
Five == << 0, 0, 0, 5 >>

FMix(k) ==
    LET k1 == Xor64(k, Shr33(k))
        k2 == Mul64(k1, F1)
        k3 == Xor64(k2, Shr33(k2))
        k4 == Mul64(k3, F2)
    IN  Xor64(k4, Shr33(k4))

(* Little-endian word of the bytes s[o+1 .. o+8], missing ones being 0.    *)
LEWord(s, o) ==
    LET Y(i) == IF o + i <= Len(s) THEN s[o+i] ELSE 0
    IN  << Y(8)*256 + Y(7), Y(6)*256 + Y(5), Y(4)*256 + Y(3), Y(2)*256 + Y(1) >>

(* The low 32 bits of the sum of the two halves, as << hi, lo >>.          *)
Murmur(s, seed) ==
    LET n == Len(s)
        nb == n \div 16
        sd == << 0, 0, 0, seed >>
        block(h, i) ==
            LET k1 == Mul64(Rotl64(Mul64(LEWord(s, 16*i), C1), 31), C2)
                a1 == Rotl64(Xor64(h[1], k1), 27)
                h1 == Add64(Mul64(Add64(a1, h[2]), Five), D1)
                k2 == Mul64(Rotl64(Mul64(LEWord(s, 16*i + 8), C2), 33), C1)
                a2 == Rotl64(Xor64(h[2], k2), 31)
                h2 == Add64(Mul64(Add64(a2, h1), Five), D2)
            IN  << h1, h2 >>
        h == FoldLeft(block, << sd, sd >>, [i \in 1..nb |-> i - 1])
        t == 16*nb
        k2 == IF n - t > 8 THEN Mul64(Rotl64(Mul64(LEWord(s, t + 8), C2), 33), C1) ELSE Zero64
        k1 == IF n - t > 0 THEN Mul64(Rotl64(Mul64(LEWord(s, t), C1), 31), C2) ELSE Zero64
        ln == << 0, 0, n \div 65536, n % 65536 >>
        h1 == Xor64(Xor64(h[1], k1), ln)
        h2 == Xor64(Xor64(h[2], k2), ln)
        g1 == Add64(h1, h2)
        g2 == Add64(h2, g1)
        f1 == FMix(g1)
        f2 == FMix(g2)
        e1 == Add64(f1, f2)
        e2 == Add64(f2, e1)
        r == Add64(e1, e2)
    IN  << r[3], r[4] >>

(* Absolute value of a signed 32-bit word modulo m < 2^23.                 *)
AbsMod(w, m) ==
    LET a == IF w[1] >= 32768 THEN
                 LET lo == 65536 - w[2] IN << (65535 - w[1] + (lo \div 65536)) % 65536, lo % 65536 >>
             ELSE w
        Next(r, b) == (r * 256 + b) % m
    IN  Next(Next(a[1] % m, a[2] \div 256), a[2] % 256)

Seeds == << 5, 7, 11, 19, 31, 37, 43, 59 >>

Bit(path, size, k) == AbsMod(Murmur(path, Seeds[k]), size)

(* Number of hash functions for an error rate of 5 %.                      *)
HashCount == 5
(* Least number of bits for n series at 5 %: n * ln 20 / (ln 2)^2, one     *)
(* more for rounding, but at least 256.                                    *)
MinBits(n) == LET x == 6 * n + (n * 23522) \div 100000 IN IF x < 256 THEN 256 ELSE x

MaxSize == 8000000
SizeBad(size, count, n) ==
    IF size < 1 \/ size > MaxSize \/ count < 1 \/ count > 8 THEN {"size or number of hash functions"}
    ELSE (IF size < MinBits(n) THEN {"smaller than the error rate requires"} ELSE {})
         \cup (IF count # HashCount THEN {"number of hash functions"} ELSE {})

Stored(bytes, i) == (i \div 8) < Len(bytes) /\ (bytes[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2 = 1

(* Number of bits set in a byte.                                           *)
Ones(b) == (b % 2) + ((b \div 2) % 2) + ((b \div 4) % 2) + ((b \div 8) % 2)
           + ((b \div 16) % 2) + ((b \div 32) % 2) + ((b \div 64) % 2) + (b \div 128)

(* The same, for n paths of which only a sample is looked at.              *)
SampleBad(bytes, size, count, n, sample) ==
    IF SizeBad(size, count, n) # {} THEN SizeBad(size, count, n)
    ELSE (IF \A p \in 1..Len(sample) : \A k \in 1..count : Stored(bytes, Bit(sample[p], size, k)) THEN {} ELSE {"bit of a series missing"})
         \cup (IF FoldLeft(LAMBDA a, b : a + Ones(b), 0, bytes) <= n * count THEN {} ELSE {"bit of no series set"})

(* Findings about a stored filter for a set of paths (sequences of bytes). *)
BloomBad(bytes, size, count, paths) ==
    LET n == Len(paths)
        want == UNION { { Bit(paths[p], size, k) : k \in 1..count } : p \in 1..n }
        have == { i \in 0..(8*Len(bytes) - 1) : Stored(bytes, i) }
    IN  IF size < 1 \/ size > MaxSize \/ count < 1 \/ count > 8 THEN SizeBad(size, count, n)
        ELSE SizeBad(size, count, n)
             \cup (IF ~(want \subseteq have) THEN {"bit of a series missing"} ELSE {})
             \cup (IF ~(have \subseteq want) THEN {"bit of no series set"} ELSE {})
=============================================================================
