SPECIFICATION Spec
VIEW View
CONSTANT Base <- BaseOfTraces
CHECK_DEADLOCK FALSE
