SPECIFICATION Spec
INVARIANT Emit
PROPERTIES Appended Harmless
CHECK_DEADLOCK FALSE
