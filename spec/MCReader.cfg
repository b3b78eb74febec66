SPECIFICATION Spec
VIEW View
INVARIANTS Confined
PROPERTY OthersKept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
