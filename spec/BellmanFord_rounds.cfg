SPECIFICATION Spec
CONSTANTS Flaw = "rounds"
          N = 3
          Weights <- WeightsQ
          Algs = {"bf", "spfa", "dag"}
          MaxE = 2
INVARIANTS Correct Honest
CHECK_DEADLOCK FALSE
