------------------------------- MODULE Handles ------------------------------
(***************************************************************************)
(* The Python classes over the C library: objects that hold a handle of    *)
(* the library or none any more, and a library in which every handle is    *)
(* made once and gone for good once it was closed or freed.                *)
(*                                                                         *)
(* The operators say what a caller may see; the state machine is the       *)
(* wrapper as it is built, of which TLC shows that the library never meets *)
(* a handle that is gone, and whose behaviours are run by real Python.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

(* What may be seen of an operation, given whether the object still holds  *)
(* its handle.  kind: of a point, whether time and value fit their types;  *)
(* of a block left, whether an exception is on its way.                    *)
Gone == {"RuntimeError"}
Results(op, holds, kind) ==
    CASE op = "schema" -> {"ok"}
      [] op = "writer" -> IF holds THEN {"ok"} ELSE {"RuntimeError", "TypeError"}
      [] op = "w" -> (IF kind = "fits" THEN (IF holds THEN {"ok"} ELSE Gone)
                      ELSE IF holds THEN {"OverflowError"} ELSE {"OverflowError"} \cup Gone)
      [] op \in {"close", "free"} -> IF holds THEN {"ok"} ELSE Gone
      [] op = "leave" -> IF kind = "raise" THEN {"Boom"} \cup (IF holds THEN {} ELSE Gone)
                         ELSE {"ok"} \cup (IF holds THEN {} ELSE Gone)
      [] op = "forget" -> {"ok"}
      [] OTHER -> {}

-----------------------------------------------------------------------------
CONSTANTS Schemas, Writers, MaxOps, Careless     \* Careless: a variant that forgets that the handle is gone

Objects == Schemas \cup Writers
VARIABLES obj, holds, lib, dangling, log
vars == << obj, holds, lib, dangling, log >>

Init == /\ obj = [x \in Objects |-> "none"]         \* none, there, forgotten
        /\ holds = [x \in Objects |-> FALSE]
        /\ lib = [x \in Objects |-> "never"]        \* never, alive, gone
        /\ dangling = FALSE
        /\ log = <<>>

Say(op, x, y, kind, r) == log' = Append(log, [op |-> op, x |-> x, y |-> y, kind |-> kind, r |-> r])
Use(x) == dangling' = (dangling \/ lib[x] # "alive")

NewSchema(s) == /\ obj[s] = "none" /\ (IF s = 1 THEN TRUE ELSE obj[s-1] # "none")
                /\ obj' = [obj EXCEPT ![s] = "there"] /\ holds' = [holds EXCEPT ![s] = TRUE]
                /\ lib' = [lib EXCEPT ![s] = "alive"]
                /\ Say("schema", s, 0, "", "ok") /\ UNCHANGED dangling
NewWriter(w, s) == /\ obj[w] = "none" /\ (IF w = 11 THEN TRUE ELSE obj[w-1] # "none") /\ obj[s] = "there"
                   /\ IF holds[s]
                      THEN /\ Use(s) /\ obj' = [obj EXCEPT ![w] = "there"] /\ holds' = [holds EXCEPT ![w] = TRUE]
                           /\ lib' = [lib EXCEPT ![w] = "alive"] /\ Say("writer", w, s, "", "ok")
                      ELSE /\ Say("writer", w, s, "", "TypeError") /\ UNCHANGED << obj, holds, lib, dangling >>
Write(w, kind) == /\ obj[w] = "there"
                  /\ IF holds[w]
                     THEN IF kind = "fits" THEN Use(w) /\ Say("w", w, 0, kind, "ok")
                          ELSE Say("w", w, 0, kind, "OverflowError") /\ UNCHANGED dangling
                     ELSE Say("w", w, 0, kind, "RuntimeError") /\ UNCHANGED dangling
                  /\ UNCHANGED << obj, holds, lib >>
LetGo(x, op, kind, well, ill) ==
    /\ obj[x] = "there"
    /\ IF holds[x]
       THEN Use(x) /\ lib' = [lib EXCEPT ![x] = "gone"] /\ holds' = [holds EXCEPT ![x] = Careless] /\ Say(op, x, 0, kind, well)
       ELSE Say(op, x, 0, kind, ill) /\ UNCHANGED << holds, lib, dangling >>
    /\ UNCHANGED obj
Close(w) == LetGo(w, "close", "", "ok", "RuntimeError")
Free(s) == LetGo(s, "free", "", "ok", "RuntimeError")
Leave(x, kind) == LetGo(x, "leave", kind, IF kind = "raise" THEN "Boom" ELSE "ok", "RuntimeError")
(* The last reference goes; what the library holds stays.                  *)
Forget(s) == /\ obj[s] = "there" /\ obj' = [obj EXCEPT ![s] = "forgotten"]
             /\ Say("forget", s, 0, "", "ok") /\ UNCHANGED << holds, lib, dangling >>

Next == /\ Len(log) < MaxOps
        /\ \/ \E s \in Schemas : NewSchema(s) \/ Free(s) \/ Forget(s) \/ \E k \in {"raise", "plain"} : Leave(s, k)
           \/ \E w \in Writers : \/ \E s \in Schemas : NewWriter(w, s)
                                 \/ \E k \in {"fits", "wide"} : Write(w, k)
                                 \/ Close(w)
                                 \/ \E k \in {"raise", "plain"} : Leave(w, k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NothingDangles == ~dangling
HoldsWhatIsAlive == \A x \in Objects : holds[x] => lib[x] = "alive"
NothingLost == \A x \in Objects : lib[x] = "alive" => holds[x]
AsPromised == log # <<>> =>
    LET e == log[Len(log)]
        before == IF e.op = "writer" THEN holds[e.y]
                  ELSE IF e.op \in {"close", "free", "leave"} THEN e.r \in {"ok", "Boom"}
                  ELSE IF e.op = "w" THEN holds[e.x] ELSE TRUE
    IN  e.r \in Results(e.op, before, e.kind)
LeftIsGone == [][log' # log => LET e == log'[Len(log')] IN e.op = "leave" => lib'[e.x] = "gone"]_vars
GoneForGood == [][\A x \in Objects : lib[x] = "gone" => lib'[x] = "gone"]_vars

(* The model is finite but for the log: what happened last is enough.      *)
Last == << obj, holds, lib, dangling, IF log = <<>> THEN <<>> ELSE << log[Len(log)] >> >>

Emit == Len(log) = MaxOps => PrintT("@@" \o ToJson(log))
=============================================================================
