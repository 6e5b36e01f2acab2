---- MODULE DigestTest ----
EXTENDS Digest, Json, IOUtils
D == ndJsonDeserialize(IOEnv.TRACES)
ASSUME \A k \in 1..Len(D) : /\ Assert(Crc32(D[k].b) = D[k].crc, <<"crc", k>>)
                            /\ Assert(DigestText(D[k].b) = D[k].sha, <<"sha", k>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
====
