SPECIFICATION Spec
VIEW View
INVARIANTS NoOrphans Same Said
ACTION_CONSTRAINT Emit
POSTCONDITION Found
CHECK_DEADLOCK FALSE
