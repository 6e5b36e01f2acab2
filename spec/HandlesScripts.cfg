SPECIFICATION Spec
CONSTANTS
  Schemas = {1}
  Writers = {11, 12}
  MaxOps = 6
  Careless = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
