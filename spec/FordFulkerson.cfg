SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 3
          Caps = {0, 1, 2}
INVARIANTS Feasible Maximal Certificate
CHECK_DEADLOCK FALSE
