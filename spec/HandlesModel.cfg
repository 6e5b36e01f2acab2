SPECIFICATION Spec
CONSTANTS
  Schemas = {1, 2}
  Writers = {11, 12}
  MaxOps = 1000
  Careless = FALSE
INVARIANTS NothingDangles HoldsWhatIsAlive NothingLost AsPromised
PROPERTIES LeftIsGone GoneForGood
VIEW Last
CHECK_DEADLOCK FALSE
