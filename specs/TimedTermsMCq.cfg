CONSTANTS
 MaxN = 4
 XS = {0, 2}
 RS = {1, 2}
SPECIFICATION Spec
INVARIANTS ShiftOK FirstOK TiltOK BandOK SteadyOK TimeOK SecantOK
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
