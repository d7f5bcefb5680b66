SPECIFICATION Spec
CONSTANTS Flaw = "none"
          Ids = {1, 2, 3}
INVARIANT Observers
PROPERTY Refines
CHECK_DEADLOCK FALSE
