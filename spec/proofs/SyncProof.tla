------------------------------ MODULE SyncProof -----------------------------
(***************************************************************************)
(* C16 and C17, of the model: for any number of sessions on a connection,  *)
(* any answers, contents sent in any number of pieces, any files.          *)
(***************************************************************************)
EXTENDS Sync, TLAPS

ASSUME Known == Answers \subseteq Accepting \cup Refusing
ASSUME Pieces == MaxPieces \in Nat /\ MaxSessions \in Nat

Request == [req : STRING, part : STRING]
Asked == [q : Request, a : Answers]
Session == [file : Files \cup {"data"}, result : {"ok", "err"}, steps : 0..9]

LEMMA NineSteps == /\ Len(Steps) = 9
                   /\ \A k \in 1..9 : Steps[k] \in Request /\ Steps[k].req # "check"
                   /\ Steps[1].req = "startSync"
                   /\ Steps[1].req # "syncData"
  BY DEF Steps, S, Request

LEMMA Apart == Accepting \cap Refusing = {} /\ Accepting \cap Closing = {}
  BY DEF Accepting, Refusing, Closing, Failures, Malformed, Lost

LEMMA Nexts == ASSUME NEW k \in 0..9, NEW s \in AllowedNext(k)
               PROVE /\ s \in Request /\ s.req # "check"
                     /\ Advance(k, s) \in 0..9
                     /\ k = 0 => s.req = "startSync"
  BY NineSteps DEF AllowedNext, Advance

TypeOK == /\ phase \in {"new", "ready", "session", "over"}
          /\ step \in 0..9 /\ pieces \in Nat /\ failed \in BOOLEAN /\ alive \in BOOLEAN
          /\ file \in Files \cup {"data"}
          /\ sessions \in Seq(Session)
          /\ asked \in Seq(Asked)

Inv == /\ TypeOK
       /\ phase = "new" => asked = <<>> /\ sessions = <<>>
       /\ phase \in {"ready", "session"} => asked # <<>> /\ asked[1].a \in Accepting
       /\ asked # <<>> => asked[1].q.req = "check"
       /\ \A k \in 2..Len(asked) : asked[k].q.req # "check"
       /\ asked # <<>> /\ alive => asked[Len(asked)].a \notin Closing
       /\ phase = "session" /\ ~failed /\ step > 0 => asked[Len(asked)].a \in Accepting
       /\ phase = "session" /\ step > BeforeFile => Readable(file)
       /\ SuccessOnlyIfConfirmed
       /\ NothingAfterRefusal

LEMMA Start == Init => Inv
  BY Pieces DEF Init, Inv, TypeOK, SuccessOnlyIfConfirmed, NothingAfterRefusal, BeforeFile

LEMMA Step == Inv /\ [Next]_vars => Inv'
  <1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <1> USE NineSteps, Apart, Known, Pieces
  <1>1. CASE UNCHANGED vars
    BY <1>1 DEF vars, Inv, TypeOK, SuccessOnlyIfConfirmed, NothingAfterRefusal
  <1>2. CASE Connect
    <2>1. PICK a \in Answers : /\ asked' = << [q |-> S("check", "no"), a |-> a] >>
                               /\ phase' = IF a \in Accepting THEN "ready" ELSE "over"
                               /\ alive' = (a \notin Closing)
      BY <1>2 DEF Connect
    <2> DEFINE e == [q |-> S("check", "no"), a |-> a]
    <2>2. e \in Asked /\ e.q.req = "check" /\ e.a = a
      BY DEF Asked, Request, S
    <2>3. asked' = << e >> /\ Len(asked') = 1 /\ asked'[1] = e /\ asked' \in Seq(Asked)
      BY <2>1, <2>2
    <2> HIDE DEF e
    <2> QED BY <1>2, <2>1, <2>2, <2>3 DEF Connect, Inv, TypeOK, SuccessOnlyIfConfirmed, NothingAfterRefusal
  <1>3. CASE CannotConnect
    BY <1>3 DEF CannotConnect, Inv, TypeOK, SuccessOnlyIfConfirmed, NothingAfterRefusal
  <1>4. CASE Begin
    BY <1>4 DEF Begin, Inv, TypeOK, SuccessOnlyIfConfirmed, NothingAfterRefusal, BeforeFile
  <1>5. CASE Ask
    <2>1. PICK s \in AllowedNext(step) :
             /\ Advance(step, s) > BeforeFile => Readable(file)
             /\ pieces' = IF Advance(step, s) = step THEN pieces + 1 ELSE 1
             /\ \E a \in Answers :
                   /\ asked' = Append(asked, [q |-> s, a |-> a])
                   /\ IF a \in Accepting THEN step' = Advance(step, s) /\ UNCHANGED failed
                      ELSE failed' = TRUE /\ UNCHANGED step
                   /\ alive' = (a \notin Closing)
      BY <1>5 DEF Ask
    <2>2. PICK a \in Answers :
                   /\ asked' = Append(asked, [q |-> s, a |-> a])
                   /\ IF a \in Accepting THEN step' = Advance(step, s) /\ UNCHANGED failed
                      ELSE failed' = TRUE /\ UNCHANGED step
                   /\ alive' = (a \notin Closing)
      BY <2>1
    <2>3. step \in 0..9 /\ asked \in Seq(Asked)
      BY DEF Inv, TypeOK
    <2>4. s \in Request /\ s.req # "check" /\ Advance(step, s) \in 0..9 /\ (step = 0 => s.req = "startSync")
      BY <2>3, Nexts
    <2> DEFINE e == [q |-> s, a |-> a]
    <2>5. e \in Asked /\ e.q = s /\ e.a = a
      BY <2>4 DEF Asked
    <2>6. asked' = Append(asked, e)
      BY <2>2
    <2> HIDE DEF e
    <2>7. /\ asked' \in Seq(Asked) /\ Len(asked') = Len(asked) + 1 /\ asked'[Len(asked')] = e
          /\ \A k \in 1..Len(asked) : asked'[k] = asked[k]
      BY <2>3, <2>5, <2>6
    <2>8. asked # <<>> /\ phase = "session" /\ ~failed /\ alive /\ Len(asked) \in Nat /\ Len(asked) > 0
      BY <1>5, <2>3 DEF Ask, Inv
    <2>9. NothingAfterRefusal'
      <3> SUFFICES ASSUME NEW k \in 1..(Len(asked') - 1), asked'[k].a \in Refusing
                   PROVE asked'[k+1].q.req = "startSync" /\ asked'[k].a \notin Closing
        BY DEF NothingAfterRefusal
      <3>1. CASE k < Len(asked)
        BY <3>1, <2>7, <2>8 DEF NothingAfterRefusal, Inv
      <3>2. CASE k = Len(asked)
        BY <3>2, <2>3, <2>4, <2>5, <2>7, <2>8 DEF Inv
      <3> QED BY <3>1, <3>2, <2>7, <2>8
    <2>10. step' \in 0..9 /\ (step' > BeforeFile => Readable(file'))
      BY <1>5, <2>1, <2>2, <2>4, <2>8 DEF Ask, Inv, TypeOK
    <2>11. TypeOK'
      BY <1>5, <2>1, <2>2, <2>7, <2>10 DEF Ask, Inv, TypeOK
    <2>12. SuccessOnlyIfConfirmed'
      BY <1>5 DEF Ask, Inv, SuccessOnlyIfConfirmed
    <2>13. /\ asked'[1].a \in Accepting /\ asked'[1].q.req = "check"
           /\ \A k \in 2..Len(asked') : asked'[k].q.req # "check"
      BY <2>4, <2>5, <2>7, <2>8 DEF Inv
    <2>14. /\ alive' => asked'[Len(asked')].a \notin Closing
           /\ ~failed' => asked'[Len(asked')].a \in Accepting
      BY <2>2, <2>5, <2>7
    <2> QED BY <1>5, <2>7, <2>8, <2>9, <2>10, <2>11, <2>12, <2>13, <2>14 DEF Ask, Inv
  <1>6. CASE Unreadable
    BY <1>6 DEF Unreadable, Inv, TypeOK, SuccessOnlyIfConfirmed, NothingAfterRefusal
  <1>7. CASE Dead
    BY <1>7 DEF Dead, Inv, TypeOK, SuccessOnlyIfConfirmed, NothingAfterRefusal
  <1>8. CASE Return
    <2> DEFINE r == [file |-> file, result |-> IF failed THEN "err" ELSE "ok", steps |-> step]
    <2>1. r \in Session /\ r.file = file /\ r.steps = step /\ (r.result = "ok" => ~failed)
      BY DEF Inv, TypeOK, Session
    <2>2. sessions' = Append(sessions, r) /\ sessions \in Seq(Session)
      BY <1>8 DEF Return, Inv, TypeOK
    <2>3. r.result = "ok" => r.steps = Len(Steps) /\ Readable(r.file)
      BY <1>8, <2>1 DEF Return, Inv, BeforeFile
    <2> HIDE DEF r
    <2>4. /\ sessions' \in Seq(Session) /\ Len(sessions') = Len(sessions) + 1 /\ sessions'[Len(sessions')] = r
          /\ \A k \in 1..Len(sessions) : sessions'[k] = sessions[k]
      BY <2>1, <2>2
    <2>5. SuccessOnlyIfConfirmed'
      <3> SUFFICES ASSUME NEW k \in 1..Len(sessions'), sessions'[k].result = "ok"
                   PROVE sessions'[k].steps = Len(Steps) /\ Readable(sessions'[k].file)
        BY DEF SuccessOnlyIfConfirmed
      <3>1. CASE k \in 1..Len(sessions)
        BY <3>1, <2>4 DEF Inv, SuccessOnlyIfConfirmed
      <3>2. CASE k = Len(sessions')
        BY <3>2, <2>3, <2>4
      <3> QED BY <3>1, <3>2, <2>2, <2>4
    <2> QED BY <1>8, <2>4, <2>5 DEF Return, Inv, TypeOK, NothingAfterRefusal
  <1>9. CASE Leave
    BY <1>9 DEF Leave, Inv, TypeOK, SuccessOnlyIfConfirmed, NothingAfterRefusal
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9 DEF Next

LEMMA Enough == Inv => UsableOnlyAfterHandshake /\ OneHandshake /\ SuccessOnlyIfConfirmed /\ NothingAfterRefusal
  BY DEF Inv, TypeOK, UsableOnlyAfterHandshake, OneHandshake

LEMMA Order == Inv /\ [Next]_vars =>
    [asked' # asked => LET q == asked'[Len(asked')].q IN q.req = "check" \/ q \in AllowedNext(step)]_vars
  <1> SUFFICES ASSUME Inv, [Next]_vars, asked' # asked
               PROVE asked'[Len(asked')].q.req = "check" \/ asked'[Len(asked')].q \in AllowedNext(step)
    BY DEF vars
  <1>1. CASE Connect
    BY <1>1 DEF Connect, S
  <1>2. CASE Ask
    <2>1. PICK s \in AllowedNext(step), a \in Answers : asked' = Append(asked, [q |-> s, a |-> a])
      BY <1>2 DEF Ask
    <2>2. step \in 0..9 /\ asked \in Seq(Asked)
      BY DEF Inv, TypeOK
    <2>3. [q |-> s, a |-> a] \in Asked
      BY <2>2, Nexts DEF Asked
    <2> QED BY <2>1, <2>2, <2>3
  <1> QED BY <1>1, <1>2 DEF Next, CannotConnect, Begin, Unreadable, Dead, Return, Leave, vars

THEOREM Sessions == Spec => /\ [](UsableOnlyAfterHandshake /\ OneHandshake /\ SuccessOnlyIfConfirmed /\ NothingAfterRefusal)
                            /\ InOrder
  <1>1. Spec => []Inv
    BY Start, Step, PTL DEF Spec
  <1>2. QED
    BY <1>1, Enough, Order, PTL DEF Spec, InOrder
=============================================================================
