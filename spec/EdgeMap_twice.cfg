SPECIFICATION Spec
CONSTANTS Flaw = "twice"
          Ids = {1, 2, 3}
INVARIANT Observers
CHECK_DEADLOCK FALSE
