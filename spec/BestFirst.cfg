SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 3
          Weights = {0, 1, 2}
          Heur = {0, 1}
INVARIANTS Optimal Ordered OnceEach AllReached
CHECK_DEADLOCK FALSE
