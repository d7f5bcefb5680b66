SPECIFICATION Spec
CONSTANTS N = 6
          Layers = 5
          MaxWanted = 12
          Capped = TRUE
INVARIANTS TypeOk NoCycle Enough CanEnd
CHECK_DEADLOCK FALSE
