SPECIFICATION Spec
CONSTANTS Flaw = "onestart"
          N = 3
INVARIANTS NeverTwice Elementary Complete
CHECK_DEADLOCK FALSE
