SPECIFICATION CSpec
CONSTANTS Flaw = "none"
          MaxLen = 3
          Deep = FALSE
          N = 3
          L = 3
INVARIANT Contract SummariesAgree
CHECK_DEADLOCK FALSE
