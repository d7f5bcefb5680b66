SPECIFICATION Spec
CONSTANTS Flaw = "oneside"
          Ids = {1, 2, 3}
INVARIANT Observers
CHECK_DEADLOCK FALSE
