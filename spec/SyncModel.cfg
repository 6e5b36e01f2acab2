SPECIFICATION Spec
CONSTANTS
  Answers = {"ok", "refuse", "garbage", "close"}
  Reaches = {"listening", "refused", "bad"}
  Files = {"data", "missing"}
  MaxSessions = 2
  MaxPieces = 2
INVARIANTS UsableOnlyAfterHandshake OneHandshake SuccessOnlyIfConfirmed NothingAfterRefusal
PROPERTIES InOrder EventuallyOver
CHECK_DEADLOCK FALSE
