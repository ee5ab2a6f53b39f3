SPECIFICATION Spec
CONSTANT MaxQ = 5
INVARIANTS Conform Finished
CHECK_DEADLOCK FALSE
