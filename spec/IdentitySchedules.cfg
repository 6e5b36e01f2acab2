SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Variant = "linked"
  MaxStops = 1
  MaxFull = 0
INVARIANTS NeverPartial OneIdentity StoredBeforePresented FailsOnlyIfFull Emit
CHECK_DEADLOCK FALSE
