------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* What a statistics record says, and what it has to say about a sequence  *)
(* of points << timestamp, value >>.                                       *)
(***************************************************************************)
EXTENDS Codec

ValueSize(type) == IF type = "INT64" THEN 8 ELSE 4

NoStats == [ok |-> FALSE, o |-> 0]
StatsAt(B, o, end, type) ==
    LET c == UVar(B, o, end)
        n == ValueSize(type)
        V(k) == IF n = 8 THEN W64FromBytes(B, c.o + 16 + 8*k) ELSE W32FromBytes(B, c.o + 16 + 4*k)
    IN  IF ~c.ok \/ c.o + 24 + 4*n > end THEN NoStats
        ELSE [ok |-> TRUE, o |-> c.o + 24 + 4*n, count |-> c.v,
              t0 |-> W64FromBytes(B, c.o), t1 |-> W64FromBytes(B, c.o + 8),
              min |-> V(0), max |-> V(1), first |-> V(2), last |-> V(3),
              sum |-> W64FromBytes(B, c.o + 16 + 4*n)]

-----------------------------------------------------------------------------
Key(v, type) == IF type = "FLOAT" THEN FloatKey(v) ELSE FlipSign(v)

MinKey(pts, type) ==
    FoldLeft(LAMBDA m, p : LET k == Key(p[2], type) IN IF LtU(k, m) THEN k ELSE m, Key(pts[1][2], type), pts)
MaxKey(pts, type) ==
    FoldLeft(LAMBDA m, p : LET k == Key(p[2], type) IN IF LtU(m, k) THEN k ELSE m, Key(pts[1][2], type), pts)

(* Sums of the positive and of the absolute negative values, exactly.      *)
AddAbs(acc, v, type) ==
    CASE type = "FLOAT" -> AddFloat32(acc, v)
      [] type = "INT64" -> AddWord64(acc, IF IsNeg(v) THEN Neg64(v) ELSE v, UnitShift)
      [] OTHER -> AddWord64(acc, IF IsNeg(v) THEN Neg64(Extend64(v)) ELSE Extend64(v), UnitShift)

RECURSIVE SumParts(_,_)
SumParts(pts, type) ==
    IF Len(pts) > 4096
    THEN LET h == Len(pts) \div 2
             a == SumParts(SubSeq(pts, 1, h), type)
             b == SumParts(SubSeq(pts, h + 1, Len(pts)), type)
         IN  << BigAdd(a[1], b[1]), BigAdd(a[2], b[2]) >>
    ELSE LET r == FoldLeft(LAMBDA acc, p :
                              IF IsNeg(p[2]) THEN << acc[1], AddAbs(acc[2], p[2], type) >>
                              ELSE << AddAbs(acc[1], p[2], type), acc[2] >>,
                           << BigZero, BigZero >>, pts)
         IN  << Normal(r[1]), Normal(r[2]) >>

(* The stored double differs from the exact sum by no more than rounding   *)
(* in any order of summation can explain, (n+2) * 2^-48 of the sum of the  *)
(* absolute values.  (For n > 16000, 16000 * 2^-48, which is still beyond  *)
(* n * 2^-53 for as many points as there ever are.)                        *)
DoubleSumOk(pts, type, s) ==
    LET parts == SumParts(pts, type)
        abs == BigAdd(parts[1], parts[2])
        neg == IsNeg(s)
        mag == Normal(AddFloat64(BigZero, << s[1] % 32768, s[2], s[3], s[4] >>))
        \* distance of +-mag from parts[1] - parts[2]
        d == IF neg THEN BigDist(BigAdd(parts[1], mag), parts[2])
             ELSE BigDist(BigAdd(parts[2], mag), parts[1])
    IN  Exp64(s) < 1023 + 150 /\ BigTopZero(d, 3) /\ BigLe(BigShift(d, 3), BigMul(abs, IF Len(pts) < 16000 THEN Len(pts) + 2 ELSE 16000))

SumOk(pts, type, s) ==
    IF type = "INT32"
    THEN s = FoldLeft(LAMBDA acc, p : Add64(acc, Extend64(p[2])), Zero64, pts)
    ELSE IF type = "INT64" THEN Exp64(s) < 1023 + 100 /\ DoubleSumOk(pts, type, s)
    ELSE LET special == SelectSeq(pts, LAMBDA p : Exp32(p[2]) = 255)
             nan == \E i \in 1..Len(special) : IsNaN32(special[i][2])
             pos == \E i \in 1..Len(special) : ~IsNeg(special[i][2])
             neg == \E i \in 1..Len(special) : IsNeg(special[i][2])
         IN  IF special = <<>> THEN DoubleSumOk(pts, type, s)
             ELSE IF nan \/ (pos /\ neg) THEN IsNaN64(s)
             ELSE IsInf64(s) /\ IsNeg(s) = neg

AnyNaN(pts, type) == type = "FLOAT" /\ \E i \in 1..Len(pts) : IsNaN32(pts[i][2])

(* The names of the fields of the record st that are wrong for the points. *)
(* (The minimum and maximum of values with a NaN among them are not        *)
(* specified.)                                                             *)
WrongStats(st, pts, type) ==
    IF pts = <<>> THEN IF st.count = 0 THEN {} ELSE {"count"}
    ELSE LET n == Len(pts)
             nan == AnyNaN(pts, type)
         IN  (IF st.count # n THEN {"count"} ELSE {})
             \cup (IF st.t0 # pts[1][1] THEN {"start time"} ELSE {})
             \cup (IF st.t1 # pts[n][1] THEN {"end time"} ELSE {})
             \cup (IF st.first # pts[1][2] THEN {"first value"} ELSE {})
             \cup (IF st.last # pts[n][2] THEN {"last value"} ELSE {})
             \cup (IF ~nan /\ Key(st.min, type) # MinKey(pts, type) THEN {"minimum"} ELSE {})
             \cup (IF ~nan /\ Key(st.max, type) # MaxKey(pts, type) THEN {"maximum"} ELSE {})
             \cup (IF ~SumOk(pts, type, st.sum) THEN {"sum"} ELSE {})
=============================================================================
