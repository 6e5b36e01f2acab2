-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* The sender's side of the synchronisation protocol against a receiver    *)
(* that may accept, refuse, answer nonsense or go away at every request.   *)
(*                                                                         *)
(* The model is checked by itself (the properties at the end), and every   *)
(* behaviour of it is a script for the receiver: TLC writes them out, the  *)
(* real sender is run against each, and what it did is validated against   *)
(* the same protocol (module SyncTrace).                                   *)
(***************************************************************************)
EXTENDS Protocol, TLC, Json

CONSTANTS Answers,        \* the kinds of answers explored
          Reaches,        \* how the receiver is reached: "listening" and ways in which it is not
          Files,          \* "data", "empty": readable; "missing", "dir": not
          MaxSessions,
          MaxPieces       \* pieces a content may be sent in

Readable(f) == f \in {"data", "empty"}
Reads(k) == k + 1 > BeforeFile     \* the next request needs the file's content

VARIABLES phase,     \* "new", "ready", "session", "over"
          step,      \* accepted requests of the session
          pieces,    \* of the content being sent
          failed,    \* a request of the session was not accepted, or the file cannot be read
          file,      \* of the session
          alive,     \* the connection
          sessions,  \* results of sessions
          asked,     \* history: [q |-> request, a |-> kind of the answer]
          reach

vars == << phase, step, pieces, failed, file, alive, sessions, asked, reach >>

Init == /\ phase = "new" /\ step = 0 /\ pieces = 0 /\ failed = FALSE /\ file = "data" /\ alive = FALSE
        /\ sessions = <<>> /\ asked = <<>> /\ reach \in Reaches

(* The handshake.                                                          *)
Connect == /\ phase = "new" /\ reach = "listening"
           /\ \E a \in Answers :
                 /\ asked' = << [q |-> S("check", "no"), a |-> a] >>
                 /\ phase' = IF a \in Accepting THEN "ready" ELSE "over"
                 /\ alive' = (a \notin Closing)
           /\ UNCHANGED << step, pieces, failed, file, sessions, reach >>
CannotConnect == /\ phase = "new" /\ reach # "listening"
                 /\ phase' = "over"
                 /\ UNCHANGED << step, pieces, failed, file, alive, sessions, asked, reach >>

Begin == /\ phase = "ready" /\ Len(sessions) < MaxSessions
         /\ \E f \in Files : file' = f
         /\ phase' = "session" /\ step' = 0 /\ pieces' = 0 /\ failed' = FALSE
         /\ UNCHANGED << alive, sessions, asked, reach >>

Ask == /\ phase = "session" /\ ~failed /\ alive
       /\ \E s \in AllowedNext(step) :
             /\ Advance(step, s) > BeforeFile => Readable(file)
             /\ Advance(step, s) = step => pieces < MaxPieces
             /\ pieces' = IF Advance(step, s) = step THEN pieces + 1 ELSE 1
             /\ \E a \in Answers :
                   /\ asked' = Append(asked, [q |-> s, a |-> a])
                   /\ IF a \in Accepting THEN step' = Advance(step, s) /\ UNCHANGED failed
                      ELSE failed' = TRUE /\ UNCHANGED step
                   /\ alive' = (a \notin Closing)
       /\ UNCHANGED << phase, file, sessions, reach >>

(* The file may be read at any time before its content is needed; a sender *)
(* that reads it early sends less of the schema log.                       *)
Unreadable == /\ phase = "session" /\ ~failed /\ step <= BeforeFile /\ ~Readable(file)
              /\ failed' = TRUE
              /\ UNCHANGED << phase, step, pieces, file, alive, sessions, asked, reach >>

(* The connection was lost before this session.                            *)
Dead == /\ phase = "session" /\ ~failed /\ ~alive
        /\ failed' = TRUE
        /\ UNCHANGED << phase, step, pieces, file, alive, sessions, asked, reach >>

Return == /\ phase = "session" /\ (failed \/ step = Len(Steps))
          /\ sessions' = Append(sessions, [file |-> file, result |-> IF failed THEN "err" ELSE "ok", steps |-> step])
          /\ phase' = "ready"
          /\ UNCHANGED << step, pieces, failed, file, alive, asked, reach >>

Leave == /\ phase = "ready" /\ sessions # <<>>
         /\ phase' = "over"
         /\ UNCHANGED << step, pieces, failed, file, alive, sessions, asked, reach >>

Next == Connect \/ CannotConnect \/ Begin \/ Ask \/ Unreadable \/ Dead \/ Return \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* C16: usable only after the one handshake was accepted.                  *)
UsableOnlyAfterHandshake ==
    phase \in {"ready", "session"} => asked # <<>> /\ asked[1].q.req = "check" /\ asked[1].a \in Accepting
OneHandshake == \A k \in 1..Len(asked) : asked[k].q.req = "check" => k = 1

(* C17: success only if every step was accepted, in order; no request, and *)
(* in particular no end, after a failed one.                               *)
SuccessOnlyIfConfirmed ==
    \A k \in 1..Len(sessions) : sessions[k].result = "ok" => sessions[k].steps = Len(Steps) /\ Readable(sessions[k].file)
NothingAfterRefusal ==
    \A k \in 1..(Len(asked) - 1) : asked[k].a \in Refusing => asked[k+1].q.req = "startSync" /\ asked[k].a \notin Closing
InOrder == [][asked' # asked => LET q == asked'[Len(asked')].q IN q.req = "check" \/ q \in AllowedNext(step)]_vars
EventuallyOver == <>(phase = "over")

-----------------------------------------------------------------------------
(* Generation: one script per complete behaviour, as JSON.  For the        *)
(* scripts, content is sent in one piece and the file is read last.        *)
Script == [reach |-> reach, answers |-> [k \in 1..Len(asked) |-> asked[k].a],
           sessions |-> [k \in 1..Len(sessions) |-> sessions[k].file]]
Odd == { k \in 1..Len(asked) : asked[k].a # "ok" }
Starts == { k \in 1..Len(asked) : asked[k].q.req = "startSync" }
(* At most one answer per session that is not plain acceptance; a second   *)
(* session only after one that ended in an error with a live connection or *)
(* that succeeded plainly; and then only refusals and lost connections.    *)
Few == /\ \A j, k \in Odd : j < k => \E n \in Starts : j < n /\ n <= k /\ asked[j].a \in {"refuse", "exception"} /\ asked[k].a \in {"refuse", "close"}
       /\ Len(sessions) = 1 /\ phase = "session" => \A k \in Odd : k > 1 /\ (asked[k].a \in {"refuse", "exception"} \/ k = Len(asked))
Emit == phase = "over" => PrintT("@@" \o ToJson(Script))
=============================================================================
