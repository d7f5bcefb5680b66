SPECIFICATION GSpec
CONSTANT Ids = {1, 2}
VIEW View
INVARIANTS TypeOK Guarded Neutral Damaged
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
