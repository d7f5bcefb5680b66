SPECIFICATION CSpec
CONSTANTS Flaw = "revisit"
          MaxLen = 3
          Deep = FALSE
          N = 2
          L = 4
INVARIANT Contract
CHECK_DEADLOCK FALSE
