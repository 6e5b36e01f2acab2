SPECIFICATION Spec
CONSTANT Base <- BaseOfTraces
CHECK_DEADLOCK FALSE
