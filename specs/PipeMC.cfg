SPECIFICATION Spec
CONSTANTS Formats <- Fm
 MaxMsgs = 3
 MaxIntr = 2
 Loop = TRUE
VIEW View
INVARIANTS Intact Apart Whole
PROPERTY Arrive
CHECK_DEADLOCK FALSE
