SPECIFICATION Spec
CONSTANTS Formats <- Fg
 MaxMsgs = 1
 MaxIntr = 2
 Loop = TRUE
INVARIANTS Intact Apart Whole
ACTION_CONSTRAINTS PrintDone Ahead
CHECK_DEADLOCK FALSE
