SPECIFICATION ExtractSpec
INVARIANTS Covered
CHECK_DEADLOCK TRUE
