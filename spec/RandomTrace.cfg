SPECIFICATION Spec
INVARIANTS Conform Finished
CHECK_DEADLOCK FALSE
