CONSTANTS MaxWaiting = 2
          LostWithIt = 1
          Grace = 0
          Record = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Seen Sound Queue Nothing Timers
ACTION_CONSTRAINT Emit
POSTCONDITION Found
CHECK_DEADLOCK FALSE
