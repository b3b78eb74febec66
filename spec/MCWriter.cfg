SPECIFICATION Spec
VIEW View
INVARIANTS   Said
ACTION_CONSTRAINT Emit
POSTCONDITION Found
CHECK_DEADLOCK FALSE
