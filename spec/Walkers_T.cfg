SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 4
          Kinds = {"bfs", "dfs"}
INVARIANT Correct
CHECK_DEADLOCK FALSE
