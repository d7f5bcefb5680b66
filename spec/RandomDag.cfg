SPECIFICATION Spec
CONSTANTS N = 4
          Layers = 3
          MaxWanted = 7
          Capped = TRUE
INVARIANTS TypeOk NoCycle Enough CanEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
