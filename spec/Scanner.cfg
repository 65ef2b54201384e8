SPECIFICATION Spec
INVARIANTS Lossless Maximal Completes Emit
PROPERTY Final
CHECK_DEADLOCK FALSE
