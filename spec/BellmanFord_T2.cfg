SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 3
          Weights <- WeightsT
          Algs = {"bf"}
          MaxE = 5
INVARIANTS Correct Honest
CHECK_DEADLOCK FALSE
