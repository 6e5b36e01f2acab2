------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* The synchronisation protocol as both the model (Sync) and the validation*)
(* of recorded sessions (SyncTrace) use it.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* Answers by kind.  Accepting: a well formed status that is not a failure *)
(* (with the newer header, with fields of later versions, with other codes *)
(* or a long text, arriving late or byte by byte).  All others do not      *)
(* accept: failures, exceptions, answers that are malformed or to   *)
(* another request, and lost connections.                                  *)
Accepting == {"ok", "okstrict", "okextra", "okslow", "okpieces", "okbig", "okcode", "okzero"}
Failures  == {"refuse", "refuseempty", "refusestrict", "refuseslow", "refusepieces", "refusebig", "exception"}
Malformed == {"wrongname", "wrongseq", "call", "noresult", "nocode", "nomsg", "badutf8",
              "trunc", "half", "garbage", "badtype", "text", "zeroframe", "negframe", "neglen"}
Lost      == {"close", "drop"}
Refusing  == Failures \cup Malformed \cup Lost

(* After these the receiver has closed the connection.                     *)
Closing   == Lost \cup {"trunc", "half", "garbage", "badtype", "text", "zeroframe", "negframe", "neglen"}

(* A session: requests in their order.                                     *)
S(req, part) == [req |-> req, part |-> part]
Steps == << S("startSync", "no"), S("init", "no"),
            S("initSyncData", "log"), S("syncData", "log"), S("checkDataDigest", "log"),
            S("initSyncData", "file"), S("syncData", "file"), S("checkDataDigest", "file"),
            S("endSync", "no") >>

(* After k accepted requests: what the sender may send next.  Content may  *)
(* be sent in several pieces.                                              *)
AllowedNext(k) ==
    (IF k < Len(Steps) THEN {Steps[k+1]} ELSE {})
    \cup (IF k > 0 /\ Steps[k].req = "syncData" THEN {Steps[k]} ELSE {})
Advance(k, s) == IF k < Len(Steps) /\ s = Steps[k+1] THEN k + 1 ELSE k

(* Requests that can be made without having read the file.                 *)
BeforeFile == 6
=============================================================================
