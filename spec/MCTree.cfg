SPECIFICATION Spec
VIEW View
INVARIANTS NoOrphans Same AllHeard Positions Requests
PROPERTIES Kept Untouched NothingElse Again EitherForm Followed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
