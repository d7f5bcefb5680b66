SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 4
          Loops = FALSE
INVARIANTS Correct Safe
CHECK_DEADLOCK FALSE
