SPECIFICATION CSpec
CONSTANTS Flaw = "none"
          MaxLen = 3
          Deep = FALSE
          N = 2
          L = 4
INVARIANT Contract SummariesAgree
PROPERTY Ends
CHECK_DEADLOCK FALSE
