SPECIFICATION Spec
INVARIANTS Balanced OneRoot Emit
PROPERTIES Monotone Final
CHECK_DEADLOCK FALSE
