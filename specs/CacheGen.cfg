SPECIFICATION MCSpec
CONSTANTS MaxKey = 3
 MaxCap = 4
 InitCaps = {0, 2, 3}
 Depth = 14
 Emit = TRUE
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
