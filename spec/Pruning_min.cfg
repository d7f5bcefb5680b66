SPECIFICATION Spec
CONSTANTS Flaw = "min"
          MaxLen = 3
          Deep = FALSE
INVARIANTS DeadStaysDead Unsat
CHECK_DEADLOCK FALSE
