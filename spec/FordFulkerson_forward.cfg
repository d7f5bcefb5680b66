SPECIFICATION Spec
CONSTANTS Flaw = "forward"
          N = 4
          Caps = {1}
INVARIANTS Feasible Maximal Certificate
CHECK_DEADLOCK FALSE
