SPECIFICATION Spec
CONSTANTS Flaw = "none"
          MaxLen = 3
          Deep = FALSE
INVARIANTS DeadStaysDead Unsat
CHECK_DEADLOCK FALSE
