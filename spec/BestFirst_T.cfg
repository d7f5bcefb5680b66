SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 4
          Weights = {0, 2}
          Heur = {0, 1}
INVARIANTS Optimal Ordered OnceEach AllReached
CHECK_DEADLOCK FALSE
