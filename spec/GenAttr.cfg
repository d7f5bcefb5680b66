SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
