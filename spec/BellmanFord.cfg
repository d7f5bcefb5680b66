SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 2
          Weights <- WeightsQ
          Algs = {"bf", "spfa", "dag"}
          MaxE = 4
INVARIANTS Correct Honest
PROPERTY Ends
CHECK_DEADLOCK FALSE
