SPECIFICATION Spec
CONSTANTS Flaw = "mark"
          N = 4
          Kinds = {"dfs"}
INVARIANT Correct
CHECK_DEADLOCK FALSE
