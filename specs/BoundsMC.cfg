SPECIFICATION Spec
CONSTANTS EqTol = 2
 Depth = 3
INVARIANTS KindOK MeasureOK ShiftOK LerpOK
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
