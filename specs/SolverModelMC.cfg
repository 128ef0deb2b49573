SPECIFICATION Spec
CONSTANTS MaxV = 3
 MaxC = 1
 MaxOps = 6
VIEW View
INVARIANTS Positions Values Gone SoundInv
ACTION_CONSTRAINT PrintDone
CHECK_DEADLOCK FALSE
