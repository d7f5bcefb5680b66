SPECIFICATION Spec
CONSTANTS Flaw = "first"
          N = 3
          Weights = {0, 2}
          Heur = {0}
INVARIANTS Optimal Ordered OnceEach AllReached
CHECK_DEADLOCK FALSE
