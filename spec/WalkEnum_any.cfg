SPECIFICATION WSpec
CONSTANTS Flaw = "any"
          MaxLen = 3
          Deep = FALSE
          N = 2
          L = 3
          Weights = {0, 1}
INVARIANT Listed
CHECK_DEADLOCK FALSE
