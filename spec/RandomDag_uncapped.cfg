SPECIFICATION Spec
CONSTANTS N = 4
          Layers = 3
          MaxWanted = 7
          Capped = FALSE
INVARIANTS TypeOk NoCycle Enough CanEnd
CHECK_DEADLOCK FALSE
