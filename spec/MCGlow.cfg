SPECIFICATION Spec
INVARIANTS Coherent Cuts Emit
CHECK_DEADLOCK FALSE
