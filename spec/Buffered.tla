------------------------------ MODULE Buffered -----------------------------
(***************************************************************************)
(* Uniform data written under the limits as they are built in.  A run is   *)
(* recorded by the points after which the file had grown, and its length   *)
(* then.  What a write adds to the file had been buffered before it.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Property == IOEnv.PROPERTY
GroupLimit == 134217728       \* 128 MiB

VARIABLES tr, i, len, bad

Over(flushed) == flushed > GroupLimit + GroupLimit \div 4

Init == tr \in 1..Len(Traces) /\ i = 1 /\ len = 7 /\ bad = {}

Grow == LET g == Traces[tr].grown
        IN  /\ i <= Len(g)
            /\ bad' = bad \cup (IF Over(g[i][2] - len) THEN {<< "C09", "more data was buffered than the chunk group limit allows" >>} ELSE {})
                          \cup (IF g[i][2] > len THEN {} ELSE {<< "C09", "file was truncated" >>})
            /\ len' = g[i][2]
            /\ i' = i + 1
            /\ UNCHANGED tr
End ==  LET t == Traces[tr]
        IN  /\ i = Len(t.grown) + 1
            /\ bad' = bad \cup (IF Over(t.len - len) THEN {<< "C09", "more data was buffered than the chunk group limit allows" >>} ELSE {})
                          \cup (IF t.r = "ok" THEN {} ELSE {<< "C09", "acceptable call refused, or panics" >>})
                          \cup (IF t.abort = "" THEN {} ELSE {<< "C09", "the process did not survive: " \o t.abort >>})
            /\ len' = t.len
            /\ i' = i + 1
            /\ UNCHANGED tr
            /\ PrintT("@@" \o ToJson([id |-> t.id, bad |-> bad', events |-> Len(t.grown) + 1, points |-> t.points, chunks |-> Len(t.grown) + 1]))

Next == Grow \/ End
Spec == Init /\ [][Next]_<< tr, i, len, bad >>
Holds == i = Len(Traces[tr].grown) + 2 => ~\E b \in bad : b[1] = Property
Short == [trace |-> Traces[tr].id, event |-> i, findings |-> bad]
=============================================================================
