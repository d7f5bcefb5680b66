SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 3
INVARIANTS NeverTwice Elementary Complete
CHECK_DEADLOCK FALSE
