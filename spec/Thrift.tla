------------------------------- MODULE Thrift -------------------------------
(***************************************************************************)
(* Requests in Thrift's binary protocol: name, message type, sequence      *)
(* number, and a struct of arguments.  The version header is optional.     *)
(***************************************************************************)
EXTENDS Words

NatAt(B, o, end) ==
    IF o + 4 > end THEN [ok |-> FALSE, v |-> 0]
    ELSE IF B[o+1] > 0 THEN [ok |-> FALSE, v |-> 0]
    ELSE [ok |-> TRUE, v |-> B[o+2]*65536 + B[o+3]*256 + B[o+4]]

StringAt(B, o, end) ==
    LET l == NatAt(B, o, end)
    IN  IF ~l.ok \/ l.v > end - o - 4 THEN [ok |-> FALSE, v |-> <<>>, o |-> o]
        ELSE [ok |-> TRUE, v |-> SubSeq(B, o + 5, o + 4 + l.v), o |-> o + 4 + l.v]

(* The fields of a struct: << identifier (as 0..65535), kind, value >>.    *)
RECURSIVE StructAt(_,_,_,_)
FieldAt(B, o, end) ==   \* o: offset of the type byte
    LET type == B[o+1]
        id == B[o+2]*256 + B[o+3]
        d == o + 3
        s == StringAt(B, d, end)
        sub == StructAt(B, d, end, <<>>)
    IN  IF d > end THEN [ok |-> FALSE]
        ELSE CASE type = 11 -> IF s.ok THEN [ok |-> TRUE, o |-> s.o, f |-> << id, "string", s.v >>] ELSE [ok |-> FALSE]
               [] type = 12 -> IF sub.ok THEN [ok |-> TRUE, o |-> sub.o, f |-> << id, "struct", sub.fields >>] ELSE [ok |-> FALSE]
               [] type = 10 -> IF d + 8 <= end THEN [ok |-> TRUE, o |-> d + 8, f |-> << id, "i64", W64FromBytes(B, d) >>] ELSE [ok |-> FALSE]
               [] type = 8 -> IF d + 4 <= end THEN [ok |-> TRUE, o |-> d + 4, f |-> << id, "i32", W32FromBytes(B, d) >>] ELSE [ok |-> FALSE]
               [] OTHER -> [ok |-> FALSE]
StructAt(B, o, end, acc) ==
    IF o >= end THEN [ok |-> FALSE]
    ELSE IF B[o+1] = 0 THEN [ok |-> TRUE, o |-> o + 1, fields |-> acc]
    ELSE IF o + 3 > end THEN [ok |-> FALSE]
    ELSE LET f == FieldAt(B, o, end)
         IN  IF ~f.ok THEN [ok |-> FALSE] ELSE StructAt(B, f.o, end, Append(acc, f.f))

Call == 1
BadRequest == [ok |-> FALSE, name |-> <<>>, args |-> <<>>]
Request(B) ==
    LET n == Len(B)
        strict == n > 8 /\ B[1] = 128 /\ B[2] = 1
        nm == StringAt(B, IF strict THEN 4 ELSE 0, n)
        a == nm.o + (IF strict THEN 4 ELSE 5)
        s == StructAt(B, a, n, <<>>)
    IN  IF n < 8 \/ ~nm.ok THEN BadRequest
        ELSE IF a >= n THEN BadRequest
        ELSE IF (IF strict THEN B[4] ELSE B[nm.o + 1]) # Call \/ ~s.ok THEN BadRequest
        ELSE IF s.o # n THEN BadRequest
        ELSE [ok |-> TRUE, name |-> nm.v, args |-> s.fields]
=============================================================================
