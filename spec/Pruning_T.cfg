SPECIFICATION Spec
CONSTANTS Flaw = "none"
          MaxLen = 4
          Deep = TRUE
INVARIANTS DeadStaysDead Unsat
CHECK_DEADLOCK FALSE
