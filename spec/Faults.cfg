SPECIFICATION Spec
INVARIANTS Located Refused Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
