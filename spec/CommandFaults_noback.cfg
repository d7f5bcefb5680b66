SPECIFICATION Spec
CONSTANTS Tools = {"add", "del", "build", "rand", "init"}
          Procs = {1, 2}
          MaxFaults = 1
          Design = "noback"
          Starts = {TRUE, FALSE}
INVARIANTS Faithful Acked NoLockLeft
CHECK_DEADLOCK FALSE
