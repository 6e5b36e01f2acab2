------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* How senders of one directory come to their identity: concurrent         *)
(* processes, each of which may be stopped at any step.                    *)
(*                                                                         *)
(* Variant "linked" is what the code does: the identity is written to a    *)
(* file of its own and then linked to the name that counts, which fails if *)
(* there is one already.  Variant "inplace" writes to the final name       *)
(* directly, as the code did; it violates the invariants, which is checked *)
(* as well (the invariants are not vacuous).                               *)
(*                                                                         *)
(* Every behaviour is a schedule: TLC writes them out, and real processes  *)
(* are run in that order (every system call on the identity's files is a   *)
(* step), stopped where the model stops them.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Procs, Variant, MaxStops, MaxFull

None == 0
Partial == -1

VARIABLES pc,        \* of every process
          lock,      \* what is stored: None, Partial, or the process whose identity it is
          own,       \* the same for the process's own file
          id,        \* the identity a process will present: None or as above
          presented, \* what a process has presented
          stops, full, word

vars == << pc, lock, own, id, presented, stops, full, word >>

Init == /\ pc = [p \in Procs |-> "open"] /\ lock = None /\ own = [p \in Procs |-> None]
        /\ id = [p \in Procs |-> None] /\ presented = [p \in Procs |-> None] /\ stops = 0 /\ full = 0 /\ word = <<>>

Go(p, to) == pc' = [pc EXCEPT ![p] = to] /\ word' = Append(word, p)
Keep(v) == UNCHANGED v

Open(p) == /\ pc[p] \in {"open", "reopen"}
           /\ Go(p, IF lock # None THEN "read" ELSE IF pc[p] = "open" THEN "create" ELSE "failed")
           /\ Keep(<< lock, own, id, presented, stops, full >>)
Read(p) == /\ pc[p] = "read"
           /\ id' = [id EXCEPT ![p] = lock]
           /\ Go(p, "present")
           /\ Keep(<< lock, own, presented, stops, full >>)

Create(p) == /\ pc[p] = "create"
             /\ IF Variant = "linked" THEN own' = [own EXCEPT ![p] = Partial] /\ Keep(lock)
                                      ELSE lock' = Partial /\ Keep(own)
             /\ Go(p, "write")
             /\ Keep(<< id, presented, stops, full >>)
Write(p) == /\ pc[p] = "write"
            /\ IF Variant = "linked" THEN own' = [own EXCEPT ![p] = p] /\ Keep(<< lock, id >>) /\ Go(p, "link")
               ELSE lock' = p /\ id' = [id EXCEPT ![p] = p] /\ Go(p, "present") /\ Keep(own)
            /\ Keep(<< presented, stops, full >>)
(* The disk is full.                                                       *)
WriteFails(p) == /\ pc[p] = "write" /\ full < MaxFull
                 /\ full' = full + 1
                 /\ Go(p, IF Variant = "linked" THEN "giveup" ELSE "failed")
                 /\ Keep(<< lock, own, id, presented, stops >>)
Link(p) == /\ pc[p] = "link"
           /\ IF lock = None THEN lock' = own[p] /\ id' = [id EXCEPT ![p] = own[p]] ELSE Keep(<< lock, id >>)
           /\ Go(p, "unlink")
           /\ Keep(<< own, presented, stops, full >>)
Unlink(p) == /\ pc[p] \in {"unlink", "giveup"}
             /\ own' = [own EXCEPT ![p] = None]
             /\ Go(p, IF pc[p] = "giveup" THEN "failed" ELSE IF id[p] # None THEN "present" ELSE "reopen")
             /\ Keep(<< lock, id, presented, stops, full >>)
(* Not a step of its own in the real process: no file is touched.          *)
Present(p) == /\ pc[p] = "present"
              /\ presented' = [presented EXCEPT ![p] = id[p]]
              /\ pc' = [pc EXCEPT ![p] = "done"]
              /\ Keep(<< lock, own, id, stops, full, word >>)

Stop(p) == /\ pc[p] \notin {"done", "failed", "stopped", "present"} /\ stops < MaxStops
           /\ stops' = stops + 1
           /\ pc' = [pc EXCEPT ![p] = "stopped"]
           /\ word' = Append(word, -p)
           /\ Keep(<< lock, own, id, presented, full >>)

Act(p) == Open(p) \/ Read(p) \/ Create(p) \/ Write(p) \/ WriteFails(p) \/ Link(p) \/ Unlink(p) \/ Present(p)
Next == \E p \in Procs : Act(p) \/ Stop(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Act(p))

-----------------------------------------------------------------------------
Over(p) == pc[p] \in {"done", "failed", "stopped"}
NeverPartial == lock # Partial /\ \A p \in Procs : presented[p] # Partial
OneIdentity == \A p, q \in Procs : presented[p] # None /\ presented[q] # None => presented[p] = presented[q]
StoredBeforePresented == \A p \in Procs : presented[p] # None => lock = presented[p]
Kept == [][lock # None => lock' = lock]_vars
FailsOnlyIfFull == \A p \in Procs : pc[p] = "failed" => full > 0
AllComeToAnEnd == <>(\A p \in Procs : Over(p))

Emit == (\A p \in Procs : Over(p)) => PrintT("@@" \o ToJson(word))
View == << pc, lock, own, id, presented, stops, full >>
=============================================================================
