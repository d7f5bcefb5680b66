SPECIFICATION Spec
CONSTANT MaxLine = 4
INVARIANTS Exact OneReading
CHECK_DEADLOCK FALSE
