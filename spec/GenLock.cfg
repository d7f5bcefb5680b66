SPECIFICATION GSpec
CONSTANTS Ids = {1, 2}
          MaxOpen = 2
VIEW View
INVARIANTS TypeOK Refused Returned
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
