SPECIFICATION Spec
VIEW View
INVARIANTS Monotone Quiet Undo TextOk
PROPERTY Trails
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
