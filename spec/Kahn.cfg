SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 3
          Loops = TRUE
INVARIANTS Correct Safe
PROPERTY Ends
CHECK_DEADLOCK FALSE
