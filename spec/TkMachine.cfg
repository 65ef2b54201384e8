SPECIFICATION Spec
INVARIANTS NoRawValue Balanced CleanEnd Lexical UserCtxKept
CHECK_DEADLOCK TRUE
