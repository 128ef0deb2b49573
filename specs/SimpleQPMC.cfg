SPECIFICATION MCSpec
CONSTANTS Depth = 5
 BS = 320
 Box0 = 32
 Mu0 = 10
INVARIANTS Inv
PROPERTIES Stable BoxOnlyLimits
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
