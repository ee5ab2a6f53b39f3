SPECIFICATION Spec
CONSTANT MaxQ = 11
INVARIANTS Conform Finished
CHECK_DEADLOCK FALSE
