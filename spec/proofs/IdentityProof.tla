---------------------------- MODULE IdentityProof ---------------------------
(***************************************************************************)
(* C19, of the model: for any number of senders, stopped at any step, on a *)
(* disk that may be full at any write (TLC explores two or three of them). *)
(***************************************************************************)
EXTENDS Identity, TLAPS

ASSUME Linked == Variant = "linked"
ASSUME Numbers == Procs \subseteq Nat \ {0}
ASSUME Bounds == MaxStops \in Nat /\ MaxFull \in Nat

Where == {"open", "reopen", "read", "create", "write", "link", "unlink", "giveup", "present", "done", "failed", "stopped"}

TypeOK == /\ pc \in [Procs -> Where]
          /\ lock \in Procs \cup {None}
          /\ own \in [Procs -> Procs \cup {None, Partial}]
          /\ id \in [Procs -> Procs \cup {None}]
          /\ presented \in [Procs -> Procs \cup {None}]
          /\ stops \in Nat /\ full \in Nat

Safe == \A p \in Procs :
    /\ pc[p] = "link" => own[p] = p
    /\ pc[p] \in {"read", "unlink", "reopen"} => lock # None
    /\ id[p] # None => lock = id[p]
    /\ pc[p] = "present" => id[p] # None
    /\ presented[p] # None => lock = presented[p]
    /\ pc[p] \in {"giveup", "failed"} => full > 0

Inv == TypeOK /\ Safe

LEMMA Start == Init => Inv
  BY Linked, Numbers, Bounds DEF Init, Inv, TypeOK, Safe, Where, None

LEMMA Step == Inv /\ [Next]_vars => Inv'
  <1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <1> USE Linked, Numbers, Bounds DEF Inv, TypeOK, Safe, Where, None, Partial, Go, Keep
  <1>1. CASE UNCHANGED vars
    BY <1>1 DEF vars
  <1>2. ASSUME NEW p \in Procs, Open(p) PROVE Inv'
    BY <1>2 DEF Open
  <1>3. ASSUME NEW p \in Procs, Read(p) PROVE Inv'
    BY <1>3 DEF Read
  <1>4. ASSUME NEW p \in Procs, Create(p) PROVE Inv'
    BY <1>4 DEF Create
  <1>5. ASSUME NEW p \in Procs, Write(p) PROVE Inv'
    BY <1>5 DEF Write
  <1>6. ASSUME NEW p \in Procs, WriteFails(p) PROVE Inv'
    BY <1>6 DEF WriteFails
  <1>7. ASSUME NEW p \in Procs, Link(p) PROVE Inv'
    BY <1>7 DEF Link
  <1>8. ASSUME NEW p \in Procs, Unlink(p) PROVE Inv'
    BY <1>8 DEF Unlink
  <1>9. ASSUME NEW p \in Procs, Present(p) PROVE Inv'
    BY <1>9 DEF Present
  <1>10. ASSUME NEW p \in Procs, Stop(p) PROVE Inv'
    BY <1>10 DEF Stop
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10 DEF Next, Act

LEMMA Enough == Inv => NeverPartial /\ OneIdentity /\ StoredBeforePresented /\ FailsOnlyIfFull
  BY Numbers DEF Inv, TypeOK, Safe, NeverPartial, OneIdentity, StoredBeforePresented, FailsOnlyIfFull, None, Partial

LEMMA Stays == Inv /\ [Next]_vars => [lock # None => lock' = lock]_vars
  BY Linked, Numbers DEF Inv, TypeOK, Safe, Next, Act, Open, Read, Create, Write, WriteFails, Link, Unlink, Present, Stop,
     Go, Keep, vars, None, Partial

THEOREM Identities == Spec => [](NeverPartial /\ OneIdentity /\ StoredBeforePresented /\ FailsOnlyIfFull) /\ Kept
  <1>1. Spec => []Inv
    BY Start, Step, PTL DEF Spec
  <1>2. QED
    BY <1>1, Enough, Stays, PTL DEF Spec, Kept
=============================================================================
