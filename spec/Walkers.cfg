SPECIFICATION Spec
CONSTANTS Flaw = "none"
          N = 3
          Kinds = {"bfs", "dfs", "bfsp", "dfsp"}
INVARIANT Correct
PROPERTY Ends
CHECK_DEADLOCK FALSE
