SPECIFICATION Spec
VIEW View
CONSTANTS
  Procs = {1, 2, 3}
  Variant = "inplace"
  MaxStops = 2
  MaxFull = 1
INVARIANTS NeverPartial OneIdentity StoredBeforePresented 
PROPERTIES Kept AllComeToAnEnd
CHECK_DEADLOCK FALSE
