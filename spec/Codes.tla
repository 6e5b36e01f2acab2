-------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* The conversions between the format's codes and the types, encodings and *)
(* compressions of the implementation, for every byte: a known code becomes*)
(* the type the format gives it and converts back to itself, an unknown    *)
(* code is refused.                                                        *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

Tables == ndJsonDeserialize(IOEnv.TRACES)
Known == [types |-> {"INT32", "INT64", "FLOAT"}, encodings |-> {"PLAIN", "TS2DIFF"}, compressions |-> {"UNCOMPRESSED", "SNAPPY"}]
NameOf(kind, b) == CASE kind = "types" -> TypeName(b) [] kind = "encodings" -> EncodingName(b) [] OTHER -> CompressionName(b)
Row(t, kind) == CASE kind = "types" -> t.types [] kind = "encodings" -> t.encodings [] OTHER -> t.compressions

RowBad(t, kind) ==
    { << "C15", kind \o ": code " \o ToString(b) \o " is not converted as the format says" >> :
        b \in { c \in 0..255 : LET r == Row(t, kind)[c+1]
                               IN  IF NameOf(kind, c) = "?" THEN r # << "", -1 >> ELSE r # << NameOf(kind, c), c >> } }
Bad(t) == IF t.abort # "" THEN { << "C15", "the process did not survive: " \o t.abort >> }
          ELSE RowBad(t, "types") \cup RowBad(t, "encodings") \cup RowBad(t, "compressions")

(* The format itself: no two codes for one name.                           *)
ASSUME \A kind \in {"types", "encodings", "compressions"} : \A n \in Known[kind] :
           \E b \in 0..255 : NameOf(kind, b) = n /\ \A c \in 0..255 : NameOf(kind, c) = n => c = b

VARIABLES tr, done
Init == tr \in 1..Len(Tables) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ PrintT("@@" \o ToJson([id |-> Tables[tr].id, bad |-> Bad(Tables[tr]), events |-> 768, status |-> "codes", chunks |-> 0, max |-> 0, points |-> 0]))
Spec == Init /\ [][Next]_<< tr, done >>
=============================================================================
