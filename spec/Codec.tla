------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The reader's decoders: variable length integers, TS2DIFF, PLAIN and     *)
(* Snappy.  Every operator is total: malformed input yields ok = FALSE.    *)
(* Offsets count bytes from 0; B[o+1] is the byte at offset o; `end' is    *)
(* the offset after the last byte that may be read.                        *)
(***************************************************************************)
EXTENDS Words

Fail == [ok |-> FALSE]

(* Unsigned variable length integer of up to 28 bits.                      *)
UVar(B, o, end) ==
    IF o >= end THEN [ok |-> FALSE, v |-> 0, o |-> o]
    ELSE IF B[o+1] < 128 THEN [ok |-> TRUE, v |-> B[o+1], o |-> o+1]
    ELSE IF o+1 >= end THEN [ok |-> FALSE, v |-> 0, o |-> o]
    ELSE IF B[o+2] < 128 THEN [ok |-> TRUE, v |-> (B[o+1]-128) + B[o+2]*128, o |-> o+2]
    ELSE IF o+2 >= end THEN [ok |-> FALSE, v |-> 0, o |-> o]
    ELSE IF B[o+3] < 128 THEN [ok |-> TRUE, v |-> (B[o+1]-128) + (B[o+2]-128)*128 + B[o+3]*16384, o |-> o+3]
    ELSE IF o+3 >= end THEN [ok |-> FALSE, v |-> 0, o |-> o]
    ELSE IF B[o+4] < 128 THEN [ok |-> TRUE, v |-> (B[o+1]-128) + (B[o+2]-128)*128 + (B[o+3]-128)*16384 + B[o+4]*2097152, o |-> o+4]
    ELSE [ok |-> FALSE, v |-> 0, o |-> o]

(* Signed variable length integer (zig-zag) that must not be negative:     *)
(* lengths of names.                                                       *)
SVarNat(B, o, end) ==
    LET u == UVar(B, o, end)
    IN  IF ~u.ok \/ u.v % 2 = 1 THEN [ok |-> FALSE, v |-> 0, o |-> o]
        ELSE [ok |-> TRUE, v |-> u.v \div 2, o |-> u.o]

(* Name: length and bytes.                                                 *)
Name(B, o, end) ==
    LET l == SVarNat(B, o, end)
    IN  IF ~l.ok \/ l.v > end - l.o THEN [ok |-> FALSE, v |-> <<>>, o |-> o]
        ELSE [ok |-> TRUE, v |-> SubSeq(B, l.o + 1, l.o + l.v), o |-> l.o + l.v]

(* A full 32-bit signed variable length integer, as PLAIN writes INT32:    *)
(* up to five groups of 7 bits, zig-zag.                                   *)
SVar32(B, o, end) ==
    LET Byte(i) == IF o + i <= end THEN B[o+i] ELSE 128
        n == CASE Byte(1) < 128 -> 1 [] Byte(2) < 128 -> 2 [] Byte(3) < 128 -> 3
               [] Byte(4) < 128 -> 4 [] Byte(5) < 128 -> 5 [] OTHER -> 0
        G(i) == IF i > n THEN 0 ELSE Byte(i) % 128
        \* u = g1 + g2<<7 + g3<<14 + g4<<21 + g5<<28 as two limbs
        lo0 == G(1) + G(2)*128 + (G(3) % 4)*16384
        hi0 == (G(3) \div 4) + G(4)*32 + (G(5) % 16)*4096
        \* zig-zag: (u >>> 1) xor -(u & 1)
        lo1 == (lo0 \div 2) + (hi0 % 2)*32768
        hi1 == hi0 \div 2
    IN  IF n = 0 \/ G(5) > 15 THEN [ok |-> FALSE, v |-> <<0,0>>, o |-> o]
        ELSE [ok |-> TRUE, o |-> o + n,
              v |-> IF lo0 % 2 = 1 THEN << 65535 - hi1, 65535 - lo1 >> ELSE << hi1, lo1 >>]

-----------------------------------------------------------------------------
(* The k-th (from 0) 16-bit limb, from the least significant one, of the   *)
(* big-endian bit field of w bits that starts at bit p of the bytes after  *)
(* offset o.                                                               *)
BitLimb(B, o, p, w, k) ==
    LET e == p + w - 16*k                       \* end bit, exclusive
        n == IF w - 16*k >= 16 THEN 16 ELSE w - 16*k
    IN  IF n <= 0 THEN 0
        ELSE LET s == e - n
                 b == s \div 8
                 last == (e - 1) \div 8
                 x == IF last = b THEN B[o+b+1]
                      ELSE IF last = b + 1 THEN B[o+b+1]*256 + B[o+b+2]
                      ELSE B[o+b+1]*65536 + B[o+b+2]*256 + B[o+b+3]
             IN  (x \div (2 ^ (8*(last+1) - e))) % (2 ^ n)

Bits64(B, o, p, w) == << BitLimb(B,o,p,w,3), BitLimb(B,o,p,w,2), BitLimb(B,o,p,w,1), BitLimb(B,o,p,w,0) >>
Bits32(B, o, p, w) == << BitLimb(B,o,p,w,1), BitLimb(B,o,p,w,0) >>

(* One TS2DIFF block: number of differences (4 bytes), their width in bits *)
(* (4), the smallest difference, the first value, the packed differences.  *)
Ts2DiffBlock(B, o, end, is64) ==
    LET ws == IF is64 THEN 8 ELSE 4
    IN  IF o + 8 + 2*ws > end \/ B[o+1] > 0 \/ B[o+5] > 0 \/ B[o+6] > 0 \/ B[o+7] > 0 \/ B[o+8] > 8*ws
        THEN [ok |-> FALSE, v |-> <<>>, o |-> o]
        ELSE LET n == B[o+2]*65536 + B[o+3]*256 + B[o+4]
                 w == B[o+8]
                 d == o + 8 + 2*ws                  \* offset of the packed differences
                 fits == w = 0 \/ n <= (8*(end - d)) \div w
                 len == (n*w + 7) \div 8
                 min == IF is64 THEN W64FromBytes(B, o+8) ELSE W32FromBytes(B, o+8)
                 first == IF is64 THEN W64FromBytes(B, o+16) ELSE W32FromBytes(B, o+12)
                 step(st, k) ==
                    LET diff == IF w = 0 THEN min
                                ELSE IF is64 THEN Add64(min, Bits64(B, d, k*w, w))
                                ELSE Add32(min, Bits32(B, d, k*w, w))
                        x == IF is64 THEN Add64(st[2], diff) ELSE Add32(st[2], diff)
                    IN  << Append(st[1], x), x >>
             IN  IF ~fits \/ n > 100000 THEN [ok |-> FALSE, v |-> <<>>, o |-> o]
                 ELSE [ok |-> TRUE, o |-> d + len,
                       v |-> FoldLeft(step, << <<first>>, first >>, [i \in 1..n |-> i-1])[1]]

RECURSIVE Ts2DiffFrom(_,_,_,_,_)
Ts2DiffFrom(B, o, end, is64, acc) ==
    IF o = end THEN [ok |-> TRUE, v |-> acc]
    ELSE LET b == Ts2DiffBlock(B, o, end, is64)
         IN  IF ~b.ok THEN [ok |-> FALSE, v |-> acc]
             ELSE Ts2DiffFrom(B, b.o, end, is64, acc \o b.v)
(* All blocks in [o, end).                                                 *)
Ts2Diff(B, o, end, is64) == Ts2DiffFrom(B, o, end, is64, <<>>)

PlainFixed(B, o, end, size) ==
    IF (end - o) % size # 0 THEN [ok |-> FALSE, v |-> <<>>]
    ELSE LET n == (end - o) \div size
         IN  [ok |-> TRUE,
              v |-> IF size = 8 THEN Tup([i \in 1..n |-> W64FromBytes(B, o + 8*(i-1))], n)
                    ELSE Tup([i \in 1..n |-> W32FromBytes(B, o + 4*(i-1))], n)]

(* The bytes without the continuation bit end the values.                  *)
PlainInt32(B, o, end) ==
    LET ends == SelectSeq(Tup([i \in 1..(end - o) |-> o + i], end - o), LAMBDA i : B[i] < 128)
        n == Len(ends)
        x(k) == SVar32(B, IF k = 1 THEN o ELSE ends[k-1], ends[k])
        vs == Tup([k \in 1..n |-> x(k)], n)
    IN  IF end > o /\ B[end] >= 128 THEN [ok |-> FALSE, v |-> <<>>]
        ELSE IF \E k \in 1..n : ~vs[k].ok THEN [ok |-> FALSE, v |-> <<>>]
        ELSE [ok |-> TRUE, v |-> Tup([k \in 1..n |-> vs[k].v], n)]

TypeName(code) == CASE code = 1 -> "INT32" [] code = 2 -> "INT64" [] code = 3 -> "FLOAT" [] OTHER -> "?"
EncodingName(code) == CASE code = 0 -> "PLAIN" [] code = 4 -> "TS2DIFF" [] OTHER -> "?"
CompressionName(code) == CASE code = 0 -> "UNCOMPRESSED" [] code = 1 -> "SNAPPY" [] OTHER -> "?"

DecodeValues(B, o, end, type, encoding) ==
    CASE type = "INT32" /\ encoding = "PLAIN" -> PlainInt32(B, o, end)
      [] type = "INT64" /\ encoding = "PLAIN" -> PlainFixed(B, o, end, 8)
      [] type = "FLOAT" /\ encoding = "PLAIN" -> PlainFixed(B, o, end, 4)
      [] type = "INT32" /\ encoding = "TS2DIFF" -> Ts2Diff(B, o, end, FALSE)
      [] type = "INT64" /\ encoding = "TS2DIFF" -> Ts2Diff(B, o, end, TRUE)
      [] OTHER -> [ok |-> FALSE, v |-> <<>>]

(* The payload of a page: length of the times, the times, the values.      *)
DecodePayload(P, type, encoding) ==
    LET l == UVar(P, 0, Len(P))
    IN  IF ~l.ok \/ l.v > Len(P) - l.o THEN [ok |-> FALSE, pts |-> <<>>]
        ELSE LET ts == Ts2Diff(P, l.o, l.o + l.v, TRUE)
                 vs == DecodeValues(P, l.o + l.v, Len(P), type, encoding)
             IN  IF ~ts.ok \/ ~vs.ok \/ Len(ts.v) # Len(vs.v) THEN [ok |-> FALSE, pts |-> <<>>]
                 ELSE [ok |-> TRUE, pts |-> Tup([i \in 1..Len(ts.v) |-> << ts.v[i], vs.v[i] >>], Len(ts.v))]

-----------------------------------------------------------------------------
(* Snappy, raw format.                                                     *)

(* Append n bytes from distance d before the end of out.                   *)
RECURSIVE CopyBack(_,_,_)
CopyBack(out, d, n) ==
    IF n <= d THEN out \o SubSeq(out, Len(out) - d + 1, Len(out) - d + n)
    ELSE CopyBack(out \o SubSeq(out, Len(out) - d + 1, Len(out)), d, n - d)

(* At most n elements, from o.                                             *)
RECURSIVE SnappySome(_,_,_,_,_)
SnappySome(B, o, end, out, n) ==
    IF o = end \/ n = 0 THEN [ok |-> TRUE, v |-> out, o |-> o]
    ELSE LET tag == B[o+1]
             kind == tag % 4
             up == tag \div 4
             bad == [ok |-> FALSE, v |-> out, o |-> o]
         IN  IF kind = 0
             THEN LET extra == IF up < 60 THEN 0 ELSE up - 59     \* bytes of length
                  IN  IF extra > 3 \/ o + 1 + extra > end THEN bad
                      ELSE LET len == 1 + (IF extra = 0 THEN up
                                           ELSE B[o+2] + (IF extra > 1 THEN B[o+3]*256 ELSE 0)
                                                       + (IF extra > 2 THEN B[o+4]*65536 ELSE 0))
                               s == o + 1 + extra
                           IN  IF len > end - s THEN bad
                               ELSE SnappySome(B, s + len, end, out \o SubSeq(B, s + 1, s + len), n - 1)
             ELSE LET size == IF kind = 1 THEN 2 ELSE IF kind = 2 THEN 3 ELSE 5
                  IN  IF o + size > end THEN bad
                      ELSE LET l == IF kind = 1 THEN 4 + (up % 8) ELSE up + 1
                               d == CASE kind = 1 -> (tag \div 32)*256 + B[o+2]
                                      [] kind = 2 -> B[o+2] + B[o+3]*256
                                      [] OTHER -> IF B[o+5] > 0 THEN 0 ELSE B[o+2] + B[o+3]*256 + B[o+4]*65536
                           IN  IF d = 0 \/ d > Len(out) THEN bad
                               ELSE SnappySome(B, o + size, end, CopyBack(out, d, l), n - 1)

(* (An element has at least two bytes.)                                    *)
SnappyFrom(B, o, end) ==
    FoldLeft(LAMBDA st, k : IF ~st.ok \/ st.o = end THEN st ELSE SnappySome(B, st.o, end, st.v, 32),
             [ok |-> TRUE, v |-> <<>>, o |-> o], [k \in 1..((end - o) \div 64 + 1) |-> k])

Snappy(B) ==
    LET l == UVar(B, 0, Len(B))
    IN  IF ~l.ok THEN [ok |-> FALSE, v |-> <<>>]
        ELSE LET r == SnappyFrom(B, l.o, Len(B))
             IN  [ok |-> r.ok /\ Len(r.v) = l.v, v |-> r.v]

Uncompress(B, compression) ==
    CASE compression = "UNCOMPRESSED" -> [ok |-> TRUE, v |-> B]
      [] compression = "SNAPPY" -> Snappy(B)
      [] OTHER -> [ok |-> FALSE, v |-> <<>>]
=============================================================================
