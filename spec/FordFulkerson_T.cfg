SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 4
          Caps = {1, 2}
INVARIANTS Feasible Maximal
CHECK_DEADLOCK FALSE
