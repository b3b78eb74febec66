SPECIFICATION Spec
VIEW View
PROPERTIES OneAtATime CopyKeepsType CopyIsSame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
