SPECIFICATION Spec
CONSTANTS N = 5
          Layers = 10
          MaxWanted = 12
          Capped = TRUE
INVARIANTS TypeOk NoCycle Enough CanEnd
CHECK_DEADLOCK FALSE
