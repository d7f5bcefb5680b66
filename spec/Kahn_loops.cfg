SPECIFICATION Spec
CONSTANTS Flaw = "loops"
          N = 3
          Loops = TRUE
INVARIANTS Correct Safe
CHECK_DEADLOCK FALSE
