SPECIFICATION Spec
INVARIANTS Sound Emit
POSTCONDITION Found
CHECK_DEADLOCK FALSE
