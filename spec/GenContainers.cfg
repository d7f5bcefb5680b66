SPECIFICATION Spec
CONSTANTS N = 6
 Prio = {1, 2, 3}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
