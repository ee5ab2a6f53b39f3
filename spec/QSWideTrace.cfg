SPECIFICATION Spec
INVARIANTS Finished
CHECK_DEADLOCK FALSE
