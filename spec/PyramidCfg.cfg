SPECIFICATION Spec
INVARIANTS Extensions Translation Fresh Same First Separate Emit
CHECK_DEADLOCK FALSE
