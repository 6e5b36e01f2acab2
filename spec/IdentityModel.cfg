SPECIFICATION Spec
VIEW View
CONSTANTS
  Procs = {1, 2, 3}
  Variant = "linked"
  MaxStops = 2
  MaxFull = 1
INVARIANTS NeverPartial OneIdentity StoredBeforePresented FailsOnlyIfFull
PROPERTIES Kept AllComeToAnEnd
CHECK_DEADLOCK FALSE
