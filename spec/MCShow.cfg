SPECIFICATION Spec
INVARIANTS Readable Emit
POSTCONDITION Found
CHECK_DEADLOCK FALSE
