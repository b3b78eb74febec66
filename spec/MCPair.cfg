SPECIFICATION Spec
INVARIANTS Sound Seen Emit
POSTCONDITION Found
CHECK_DEADLOCK FALSE
