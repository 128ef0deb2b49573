CONSTANT MaxR = 4
SPECIFICATION Spec
INVARIANTS Covers OneOwner Local ShiftOK Agree ConvexOK
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
