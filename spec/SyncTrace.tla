------------------------------ MODULE SyncTrace -----------------------------
(***************************************************************************)
(* Validation of recorded runs of the real sender against the protocol.    *)
(*                                                                         *)
(* A trace is a sequence of operations with everything that was observable *)
(* of them: the result, the requests a scripted receiver read and how it   *)
(* answered each, and the stored identity before and after.                *)
(***************************************************************************)
EXTENDS Schema, MLog, Thrift, Protocol, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)
Property == IOEnv.PROPERTY

VARIABLES tr, i, st

F(props, holds, what) == IF holds THEN {} ELSE { << p, what >> : p \in props }

(* Names and constants of the protocol as bytes.                           *)
Ascii(s) ==
    CASE s = "check" -> << 99, 104, 101, 99, 107 >>
      [] s = "startSync" -> << 115, 116, 97, 114, 116, 83, 121, 110, 99 >>
      [] s = "init" -> << 105, 110, 105, 116 >>
      [] s = "initSyncData" -> << 105, 110, 105, 116, 83, 121, 110, 99, 68, 97, 116, 97 >>
      [] s = "syncData" -> << 115, 121, 110, 99, 68, 97, 116, 97 >>
      [] s = "checkDataDigest" -> << 99, 104, 101, 99, 107, 68, 97, 116, 97, 68, 105, 103, 101, 115, 116 >>
      [] s = "endSync" -> << 101, 110, 100, 83, 121, 110, 99 >>
      [] s = "mlog.bin" -> << 109, 108, 111, 103, 46, 98, 105, 110 >>
      [] s = "0_0_" -> << 48, 95, 48, 95 >>
      [] s = "0.13" -> << 48, 46, 49, 51 >>
Interval == << 0, 0, 9, 14976 >>     \* 604800, a week in seconds
Dot == << 46 >>

AsSet(seq) == { seq[k] : k \in 1..Len(seq) }
IsHex(b) == Len(b) = 32 /\ \A k \in 1..32 : b[k] \in 48..57 \/ b[k] \in 97..102

(* The arguments of the handshake.                                         *)
Handshake(q) == IF Len(q.args) = 1 /\ q.args[1][2] = "struct" THEN AsSet(q.args[1][3]) ELSE {}
Presented(q) == LET us == { f \in Handshake(q) : f[1] = 2 /\ f[2] = "string" }
                IN  IF us = {} THEN <<>> ELSE (CHOOSE f \in us : TRUE)[3]
Address(q)   == LET us == { f \in Handshake(q) : f[1] = 1 /\ f[2] = "string" }
                IN  IF us = {} THEN <<>> ELSE (CHOOSE f \in us : TRUE)[3]

-----------------------------------------------------------------------------
(* Creating a sender.                                                      *)
ConnectOp(t, s0, e) ==
    LET fs == e.frames
        some == fs # <<>>
        q == IF some THEN Request(fs[1].b) ELSE BadRequest
        a == IF some THEN fs[1].a ELSE IF e.reach # "listening" THEN "no receiver (" \o e.reach \o ")"
                                  ELSE IF e.script # <<>> /\ e.script[1] = "drop" THEN "drop" ELSE "none"
        u == Presented(q)
        \* reasons not to come to the handshake
        early == ~e.addrGiven \/ (~e.uuidGiven /\ ~e.storable /\ e.before.k # "file")
        generated == ~e.uuidGiven /\ e.before.k = "none"
    IN  [s0 EXCEPT
          !.ready = (e.r = "ok"),
          !.alive = (e.r = "ok"),
          !.script = e.script,
          !.n = Len(fs),
          !.ids = IF generated /\ e.after.k = "file" THEN Append(@, e.after.b) ELSE @,
          !.bad = @ \cup
            F({"C16"}, e.r # "panic", "creating the sender panics, answer: " \o a)
            \cup F({"C16"}, Len(fs) <= 1, "more than one request in the handshake")
            \cup F({"C16"}, some => q.ok /\ q.name = Ascii("check"), "the handshake is not the identity check")
            \cup F({"C16"}, some => Len(q.args) = 1 /\ q.args[1][1] \in {1, 65535}
                            /\ Handshake(q) = { << 1, "string", Address(q) >>, << 2, "string", u >>,
                                                << 3, "i64", Interval >>, << 4, "string", Ascii("0.13") >> },
                   "the identity check does not carry address, identity, partition interval and version")
            \cup F({"C16"}, some => (IF e.addrGiven THEN Address(q) = e.addr ELSE Address(q) # <<>>), "the handshake carries another address")
            \cup F({"C16"}, some => ~e.uuidGiven \/ u = e.uuid, "the handshake carries another identity")
            \cup F({"C16"}, e.r = "ok" => some /\ fs[1].a \in Accepting, "the sender is usable though the handshake was not accepted, answer: " \o a)
            \cup F({"C16"}, e.r = "err" /\ some => fs[1].a \notin Accepting, "the sender is not usable though the handshake was accepted, answer: " \o a)
            \cup F({"C16", "C19"}, e.r = "err" /\ ~some /\ ~early => a # "none", "no handshake is made")
            \* the identity
            \cup F({"C19"}, some /\ e.uuidGiven => u = e.uuid, "a given identity is not the one presented")
            \cup F({"C19"}, e.uuidGiven => e.after = e.before, "a given identity alters the stored one")
            \cup F({"C19"}, some /\ ~e.uuidGiven /\ e.before.k = "file" => u = e.before.b, "the stored identity is not the one presented")
            \cup F({"C19"}, ~e.uuidGiven /\ e.before.k = "file" => e.after = e.before, "the stored identity is altered")
            \cup F({"C19"}, generated /\ e.after.k # "none" => e.after.k = "file" /\ IsHex(e.after.b), "what is stored is not an identity of 32 lower case hexadecimal digits")
            \cup F({"C19"}, generated /\ some => e.after.k = "file" /\ u = e.after.b, "a generated identity is presented that is not stored")
            \cup F({"C19"}, generated /\ e.after.k = "file" => \A k \in 1..Len(s0.ids) : s0.ids[k] # e.after.b, "the same identity is generated in two directories")
            \cup F({"C19"}, ~e.uuidGiven /\ e.before.k = "other" => e.r = "err" /\ ~some, "the identity cannot be stored, and that is not an error")
            \cup F({"C19"}, ~e.uuidGiven /\ e.before.k # "file" /\ ~e.storable => e.r = "err" /\ ~some, "the identity cannot be stored, and that is not an error")]

-----------------------------------------------------------------------------
(* A session.  After a malformed answer the two sides may be out of step   *)
(* (the rest of the answer is taken for the next one): later sessions on   *)
(* that connection may fail, but not succeed without being confirmed.      *)
Want(e, s) ==      \* the text argument of a request
    CASE s.req = "init" -> e.sg
      [] s.req = "initSyncData" -> IF s.part = "log" THEN Ascii("mlog.bin") ELSE Ascii("0_0_") \o e.name
      [] OTHER -> <<>>

FrameStep(e, x, fr) ==
    LET q == Request(fr.b)
        next == { s \in AllowedNext(x.k) : Ascii(s.req) = q.name }
        s == CHOOSE y \in next : TRUE
        arg == IF Len(q.args) = 1 /\ q.args[1][2] = "string" THEN q.args[1][3] ELSE <<>>
        one == Len(q.args) = 1 /\ q.args[1][1] = 1 /\ q.args[1][2] = "string"
        data == IF s.req = "syncData" THEN (IF Steps[IF x.k = 0 THEN 1 ELSE x.k].req = "syncData" THEN x.data ELSE <<>>) \o arg ELSE x.data
        badArgs == CASE s.req \in {"startSync", "endSync"} -> q.args # <<>>
                     [] s.req \in {"init", "initSyncData"} -> ~one \/ arg # Want(e, s)
                     [] s.req = "syncData" -> ~one
                     [] OTHER -> ~one \/ arg # DigestText(x.data)
        k2 == Advance(x.k, s)
    IN  IF x.stop THEN x
        ELSE IF x.failed THEN [x EXCEPT !.stop = TRUE, !.bad = @ \cup {"a request is made after a failed one"}]
        ELSE IF ~q.ok \/ fr.a \in {"incomplete", "toolong"} THEN [x EXCEPT !.stop = TRUE, !.bad = @ \cup {"malformed request"}]
        ELSE IF next = {} THEN [x EXCEPT !.stop = TRUE, !.bad = @ \cup {"a request is out of order"}]
        ELSE [x EXCEPT !.k = IF fr.a \in Accepting THEN k2 ELSE @,
                       !.failed = fr.a \notin Accepting,
                       !.last = fr.a,
                       !.data = data,
                       !.log = IF s.req = "syncData" /\ s.part = "log" THEN data ELSE @,
                       !.bad = @ \cup (IF badArgs THEN {"request " \o s.req \o " (" \o s.part \o ") does not carry what it should"} ELSE {})
                                 \cup (IF s.req = "checkDataDigest" /\ s.part = "file" /\ data # e.data
                                       THEN {"the bytes sent are not those of the file"} ELSE {})
                                 \cup (IF s.req = "syncData" /\ s.part = "file" /\ ~e.readable
                                       THEN {"bytes are sent of a file that cannot be read"} ELSE {})]

Paths(t, sg) == { << sg \o Dot \o t.names[s.d] \o Dot \o t.names[s.m], s.type, s.encoding, s.compression >> : s \in AsSet(SeriesOf(t)) }
Plans(B) == LET f == FramesFrom(B, 0, <<>>)
            IN  << f.ok, f.why, { IF p.kind = "group" THEN << p.path >> ELSE << p.path, p.type, p.encoding, p.compression >> : p \in AsSet(f.v) }, Len(f.v) >>

SyncOp(t, s0, e) ==
    LET x0 == [k |-> 0, failed |-> FALSE, stop |-> FALSE, last |-> "", data |-> <<>>, log |-> <<>>, bad |-> {}]
        x == FoldLeft(LAMBDA a, fr : TLCEval(FrameStep(e, a, fr)), x0, e.frames)
        n2 == s0.n + Len(e.frames)
        dropped == n2 < Len(s0.script) /\ s0.script[n2 + 1] = "drop"
        alive == s0.alive /\ ~dropped
        logSent == x.log # <<>>
        done == x.k = Len(Steps) /\ ~x.failed
        why == IF ~s0.alive THEN "connection lost before" ELSE IF dropped THEN "drop"
               ELSE IF x.last # "" /\ x.failed THEN x.last ELSE IF ~e.readable THEN "unreadable file" ELSE "none"
    IN  IF e.r = "none"
        THEN [s0 EXCEPT !.bad = @ \cup F({"C16", "C17"}, e.frames = <<>>, "requests without a sender")]
        ELSE [s0 EXCEPT
          !.n = n2,
          !.alive = alive /\ ~(x.failed /\ x.last \in Closing \cup Malformed),
          !.bad = @ \cup { << "C17", w >> : w \in x.bad }
            \cup F({"C17"}, e.r # "panic", "the session panics: " \o why)
            \cup F({"C17"}, e.r = "ok" => done, "success is reported though the receiver did not confirm everything: " \o why)
            \cup F({"C17"}, e.r = "ok" => e.readable, "success is reported for a file that cannot be read")
            \cup F({"C17"}, e.r = "err" /\ x.bad = {} => ~done, "an error is reported though the receiver confirmed everything")
            \cup F({"C17"}, e.r = "err" /\ x.bad = {} /\ ~done => why # "none", "the session fails without a reason")
            \* what the log says
            \cup (IF ~logSent \/ Property # "C18" THEN {} ELSE { << "C18", w >> : w \in MLogBad(x.log, e.sg, Paths(t, e.sg)) })
            \cup (IF ~logSent \/ s0.logOf # e.sg \/ Property # "C17" THEN {}
                  ELSE F({"C17"}, Plans(x.log) = Plans(s0.log), "the bytes sent are not those of the schema log"))]

MLogOp(t, s0, e) ==
    [s0 EXCEPT !.log = e.data, !.logOf = e.sg,
               !.bad = @ \cup F({"C18"}, e.r # "panic", "writing the schema log panics")
                 \cup F({"C18"}, e.r # "err", "writing the schema log fails")
                 \cup (IF e.r # "ok" \/ Property # "C18" THEN {} ELSE { << "C18", w >> : w \in MLogBad(e.data, e.sg, Paths(t, e.sg)) })]

ByeOp(t, s0, e) ==
    [s0 EXCEPT !.bad = @ \cup F({"C17"}, s0.alive => e.frames = <<>>, "a request is made outside of a session"),
               !.ready = FALSE, !.alive = FALSE]

-----------------------------------------------------------------------------
(* Several senders in one directory at once, and senders that are stopped  *)
(* at some point of their dealings with the stored identity (operation     *)
(* "race"): those that presented one, presented the same, and what is      *)
(* stored at the end is that identity, or nothing yet, but nothing else.   *)
RaceOp(t, s0, e) ==
    LET us == { Presented(Request(e.handshakes[k])) : k \in 1..Len(e.handshakes) }
    IN  [s0 EXCEPT !.bad = @
          \cup F({"C19"}, \A u \in us : IsHex(u), "what is presented is not an identity of 32 lower case hexadecimal digits: " \o e.kind)
          \cup F({"C19"}, \A u, v \in us : u = v, "two senders of a directory present different identities: " \o e.kind)
          \cup F({"C19"}, e.after.k # "none" => e.after.k = "file" /\ IsHex(e.after.b), "what is stored is not an identity of 32 lower case hexadecimal digits: " \o e.kind)
          \cup F({"C19"}, us # {} => e.after.b \in us, "an identity is presented that is not stored: " \o e.kind)
          \cup F({"C19"}, e.failed = 0, "a sender fails without a reason: " \o e.kind)]

-----------------------------------------------------------------------------
Op(t, s0, e) == CASE e.op = "connect" -> ConnectOp(t, s0, e)
                  [] e.op = "sync" -> SyncOp(t, s0, e)
                  [] e.op = "mlog" -> MLogOp(t, s0, e)
                  [] e.op = "race" -> RaceOp(t, s0, e)
                  [] OTHER -> ByeOp(t, s0, e)

Init == /\ tr \in 1..Len(Traces)
        /\ i = 1
        /\ st = [ready |-> FALSE, alive |-> FALSE, script |-> <<>>, n |-> 0, ids |-> <<>>, log |-> <<>>, logOf |-> << 0 >>, bad |-> {}]

Event == /\ i <= Len(Traces[tr].ops)
         /\ st' = TLCEval(Op(Traces[tr], st, Traces[tr].ops[i]))
         /\ i' = i + 1
         /\ UNCHANGED tr

Count(t, what, r) == Len(SelectSeq(t.ops, LAMBDA e : e.op = what /\ e.r = r))
End == /\ i = Len(Traces[tr].ops) + 1
       /\ st' = [st EXCEPT !.bad = TLCEval(@ \cup (IF Traces[tr].abort = "" THEN {}
                    ELSE { << p, "the process did not survive: " \o Traces[tr].abort >> : p \in {"C16", "C17", "C18", "C19"} }))]
       /\ i' = i + 1
       /\ UNCHANGED tr
       /\ PrintT("@@" \o ToJson([id |-> Traces[tr].id, bad |-> st'.bad, events |-> i - 1,
                                 senders |-> Count(Traces[tr], "connect", "ok"), refused |-> Count(Traces[tr], "connect", "err"),
                                 sessions |-> Count(Traces[tr], "sync", "ok"), failed |-> Count(Traces[tr], "sync", "err")]))

Next == Event \/ End
Spec == Init /\ [][Next]_<< tr, i, st >>
View == << tr, i >>
Holds == i = Len(Traces[tr].ops) + 2 => ~\E b \in st.bad : b[1] = Property
Short == [trace |-> Traces[tr].id, event |-> i, findings |-> { b \in st.bad : b[1] = Property }]
=============================================================================
