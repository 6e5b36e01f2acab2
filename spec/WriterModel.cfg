SPECIFICATION Spec
VIEW View
CONSTANTS
  Profile = "PROFILE"
  Depth = DEPTH
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK NothingLostOrTwice FileIsAccepted Increasing LastIsLast NoEmptyPages PagesBounded CountIsBuffered ClosedIsComplete OneMeta MetaIsLast FailedIsReported CloseOkIsClosed NotBoth
PROPERTIES Refines ClosedIsFinal OnlyAppends
CHECK_DEADLOCK FALSE
