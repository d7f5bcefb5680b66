SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 3
          Weights <- WeightsT
          Algs = {"spfa", "dag"}
          MaxE = 9
INVARIANTS Correct Honest
CHECK_DEADLOCK FALSE
