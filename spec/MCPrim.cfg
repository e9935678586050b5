SPECIFICATION Spec
CONSTANT Samples = 3
CHECK_DEADLOCK FALSE
