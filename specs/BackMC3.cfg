SPECIFICATION Spec
CONSTANTS N = 3
 Rounds = 3
 Compare = 99
 Rich = FALSE
VIEW View
INVARIANT Holds
ACTION_CONSTRAINT PrintDone
CHECK_DEADLOCK FALSE
