CONSTANT MaxOut = 2
SPECIFICATION Spec
INVARIANTS Sound Seen Emit
PROPERTY Ends
POSTCONDITION Found
CHECK_DEADLOCK FALSE
