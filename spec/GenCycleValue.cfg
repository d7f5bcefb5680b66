SPECIFICATION Spec
CONSTANTS N = 4
 K = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
