SPECIFICATION Spec
INVARIANTS Isolated Emit
CONSTRAINT NotTooOften
CHECK_DEADLOCK FALSE
