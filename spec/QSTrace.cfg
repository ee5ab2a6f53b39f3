SPECIFICATION Spec
VIEW View
INVARIANTS Conform Finished
CHECK_DEADLOCK FALSE
