SPECIFICATION Spec
CONSTANTS Flaw = "not"
          MaxLen = 3
          Deep = FALSE
INVARIANTS DeadStaysDead Unsat
CHECK_DEADLOCK FALSE
