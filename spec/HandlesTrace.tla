---------------------------- MODULE HandlesTrace ----------------------------
(***************************************************************************)
(* Decides recorded runs of the Python classes: what every operation gave, *)
(* and which functions of the C library were called with which handle.     *)
(* (The files are decided by Trace, as those of a twin.)                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

H == INSTANCE Handles WITH Schemas <- {}, Writers <- {}, MaxOps <- 0, Careless <- FALSE,
                      obj <- 0, holds <- 0, lib <- 0, dangling <- 0, log <- 0
Codec == INSTANCE Codec

Traces == ndJsonDeserialize(IOEnv.TRACES)
Property == IOEnv.PROPERTY

F(cond, what) == IF cond THEN {} ELSE { << "C21", what >> }

(* Numbers come as five limbs of 16 bits, lowest first, in two's           *)
(* complement: it fits 16*k bits if the rest is nothing but its sign.      *)
Fits(x, k) == LET sign == IF x[k] >= 32768 THEN 65535 ELSE 0 IN \A j \in (k + 1)..5 : x[j] = sign
Kind(e) == IF e.op # "w" THEN e.kind ELSE IF Fits(e.t, 4) /\ Fits(e.v, 2) THEN "fits" ELSE "wide"

(* s: the objects that still hold their handle.                            *)
Step(s, e) ==
    LET which == IF e.op = "writer" THEN e.y ELSE e.x
        can == H!Results(e.op, which \in s.holds, Kind(e))
        now == IF e.op \in {"schema", "writer"} THEN IF e.r = "ok" THEN s.holds \cup {e.x} ELSE s.holds
               ELSE IF e.op \in {"close", "free", "leave"} THEN s.holds \ {e.x} ELSE s.holds
    IN  [holds |-> now,
         bad |-> s.bad \cup F(e.r \in can, "'" \o e.op \o "' of " \o (IF which \in s.holds THEN "an open" ELSE "a closed or freed")
                                           \o " object (" \o Kind(e) \o ") gives " \o e.r)]

(* The library: a handle is of use from the call that made it to the one   *)
(* that closes or frees it, which is the last.                             *)
Makes == {"schema_simple", "file_writer_new"}
Ends == {"schema_free", "file_writer_close"}
Call(s, c) ==
    LET bad == F(c.f = "schema_simple" \/ c.h \in s.alive, c.f \o " is called with a handle that is not (or no longer) valid")
    IN  [alive |-> IF c.f \in Makes THEN s.alive \cup {c.r} ELSE IF c.f \in Ends THEN s.alive \ {c.h} ELSE s.alive,
         bad |-> s.bad \cup bad]

CodeBad(c) ==
    LET name == CASE c.kind = "types" -> Codec!TypeName(c.code) [] c.kind = "encodings" -> Codec!EncodingName(c.code)
                  [] OTHER -> Codec!CompressionName(c.code)
    IN  F(name = c.name, "the code of " \o c.name \o " is not the format's")

Bad(t) == FoldLeft(Step, [holds |-> {}, bad |-> {}], t.ops).bad
          \cup FoldLeft(Call, [alive |-> {}, bad |-> {}], t.calls).bad
          \cup UNION { CodeBad(t.codes[k]) : k \in 1..Len(t.codes) }
          \cup F(t.abort = "", "the process did not survive: " \o t.abort)

VARIABLES tr, done
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ PrintT("@@" \o ToJson([id |-> Traces[tr].id, bad |-> TLCEval(Bad(Traces[tr])), events |-> Len(Traces[tr].ops) + Len(Traces[tr].calls),
                                  status |-> "python", chunks |-> 0, max |-> 0, points |-> 0]))
Spec == Init /\ [][Next]_<< tr, done >>
=============================================================================
