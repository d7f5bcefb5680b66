SPECIFICATION Spec
CONSTANT MaxLine = 6
INVARIANTS Exact OneReading
CHECK_DEADLOCK FALSE
