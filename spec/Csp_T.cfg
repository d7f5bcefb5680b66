SPECIFICATION CSpec
CONSTANTS Flaw = "none"
          MaxLen = 3
          Deep = TRUE
          N = 2
          L = 4
INVARIANT Contract SummariesAgree
CHECK_DEADLOCK FALSE
