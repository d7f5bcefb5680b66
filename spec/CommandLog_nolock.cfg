SPECIFICATION Spec
CONSTANTS Tools = {"add", "del", "build", "rand", "clean", "init", "read"}
          Procs = {1, 2}
          MaxFaults = 0
          Design = "nolock"
          Starts = {TRUE, FALSE}
INVARIANTS Faithful Acked ReaderOk Exclusive Kept NoLockLeft
CHECK_DEADLOCK FALSE
