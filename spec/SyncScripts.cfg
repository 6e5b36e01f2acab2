SPECIFICATION Spec
CONSTANTS
  Answers = {"ok", "okstrict", "okextra", "okpieces", "okbig", "okcode", "okzero", "refuse", "refusepieces", "refusebig", "refuseempty", "refusestrict", "exception", "wrongname", "wrongseq", "call", "noresult", "nocode", "nomsg", "badutf8", "trunc", "half", "garbage", "badtype", "text", "zeroframe", "negframe", "neglen", "close", "drop"}
  Reaches = {"listening", "refused", "bad"}
  Files = {"data", "empty", "missing", "dir"}
  MaxSessions = 2
  MaxPieces = 1
INVARIANTS UsableOnlyAfterHandshake OneHandshake SuccessOnlyIfConfirmed NothingAfterRefusal Emit
CONSTRAINT Few
CHECK_DEADLOCK FALSE
