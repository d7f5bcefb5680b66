SPECIFICATION GSpec
CONSTANT Ids = {1, 2, 3}
VIEW View
INVARIANTS TypeOK Algebra Emit
CHECK_DEADLOCK FALSE
