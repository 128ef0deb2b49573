SPECIFICATION Spec
CONSTANTS N = 3
 Rounds = 2
 Compare = 99
 Rich = TRUE
VIEW View
INVARIANT Holds
ACTION_CONSTRAINT PrintDone
CHECK_DEADLOCK FALSE
