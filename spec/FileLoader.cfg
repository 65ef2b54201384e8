SPECIFICATION Spec
INVARIANTS Sound Emit
PROPERTY Forever
CHECK_DEADLOCK FALSE
