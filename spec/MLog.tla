-------------------------------- MODULE MLog --------------------------------
(***************************************************************************)
(* The schema log: frames of a length (4 bytes), plans of that length and  *)
(* a checksum (8 bytes, CRC-32 of the plans).  A plan sets a storage group *)
(* (3, path, index) or creates a series (4, path, codes of type, encoding  *)
(* and compression, tag offset, no alias, properties, tags and attributes, *)
(* index).                                                                 *)
(***************************************************************************)
EXTENDS Codec, Digest, FiniteSets

MinusOne64 == << 65535, 65535, 65535, 65535 >>

Len32(B, o, end) ==        \* a length below 2^24
    IF o + 4 > end THEN [ok |-> FALSE, v |-> 0]
    ELSE IF B[o+1] > 0 THEN [ok |-> FALSE, v |-> 0]
    ELSE [ok |-> TRUE, v |-> B[o+2]*65536 + B[o+3]*256 + B[o+4]]

BadPlan == [ok |-> FALSE]
PlanAt(B, o, end) ==
    LET l == Len32(B, o + 1, end)
        p == o + 5 + l.v                   \* after the path
        path == SubSeq(B, o + 6, p)
    IN  IF o >= end THEN BadPlan
        ELSE IF B[o+1] \notin {3, 4} \/ ~l.ok THEN BadPlan
        ELSE IF B[o+1] = 3
        THEN IF p + 8 > end THEN BadPlan ELSE [ok |-> TRUE, o |-> p + 8, kind |-> "group", path |-> path]
        ELSE IF p + 23 > end THEN BadPlan
        ELSE IF W64FromBytes(B, p + 3) # MinusOne64 \/ \E k \in 12..15 : B[p + k] # 0 THEN BadPlan
        ELSE [ok |-> TRUE, o |-> p + 23, kind |-> "series", path |-> path,
              type |-> TypeName(B[p+1]), encoding |-> EncodingName(B[p+2]), compression |-> CompressionName(B[p+3])]

RECURSIVE PlansFrom(_,_,_,_)
PlansFrom(B, o, end, acc) ==
    IF o = end THEN [ok |-> TRUE, v |-> acc]
    ELSE LET p == PlanAt(B, o, end)
         IN  IF ~p.ok THEN [ok |-> FALSE, v |-> acc] ELSE PlansFrom(B, p.o, end, Append(acc, p))

RECURSIVE FramesFrom(_,_,_)
FramesFrom(B, o, acc) ==
    IF o = Len(B) THEN [ok |-> TRUE, v |-> acc, why |-> ""]
    ELSE LET l == Len32(B, o, Len(B))
             e == o + 4 + l.v
         IN  IF ~l.ok \/ e + 8 > Len(B) THEN [ok |-> FALSE, v |-> acc, why |-> "frame is not complete"]
             ELSE LET c == Crc32(SubSeq(B, o + 5, e))
                      ps == PlansFrom(B, o + 4, e, <<>>)
                  IN  IF W64FromBytes(B, e) # << 0, 0, c[1], c[2] >>
                      THEN [ok |-> FALSE, v |-> acc, why |-> "checksum does not match"]
                      ELSE IF ~ps.ok THEN [ok |-> FALSE, v |-> acc, why |-> "plans do not fill the frame"]
                      ELSE FramesFrom(B, e + 8, acc \o ps.v)

(* What is wrong with the bytes as the log of a storage group and a set of *)
(* series (path, type, encoding, compression).                             *)
MLogBad(B, sg, series) ==
    LET f == FramesFrom(B, 0, <<>>)
        created == SelectSeq(f.v, LAMBDA p : p.kind = "series")
        groups == SelectSeq(f.v, LAMBDA p : p.kind = "group")
        have == { << p.path, p.type, p.encoding, p.compression >> : p \in { created[k] : k \in 1..Len(created) } }
    IN  IF ~f.ok THEN {"schema log: " \o f.why}
        ELSE (IF Len(groups) = 1 /\ f.v[1].kind = "group" /\ f.v[1].path = sg THEN {}
              ELSE {"schema log does not begin with the one declaration of the storage group"})
             \cup (IF have = series THEN {} ELSE {"schema log does not declare exactly the series of the schema"})
             \cup (IF Len(created) = Cardinality(series) THEN {} ELSE {"schema log declares a series twice or leaves one out"})
=============================================================================
