CONSTANTS MaxWaiting = 2
          LostWithIt = 1
          Grace = 0
          Record = FALSE
SPECIFICATION Fair
INVARIANTS Sound
PROPERTIES Sends Empties Answers Reports
CHECK_DEADLOCK FALSE
