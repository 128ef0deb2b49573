SPECIFICATION Spec
CONSTANTS Params <- SmallParams
 Starts <- SmallStarts
 CVals = {0, 2}
 VVals = {0, 2}
 Dts = {0, 1}
VIEW View
INVARIANTS TypeOK StatusTrue SolvableBox Bounded
PROPERTIES MeritMonotone BoxSchedule CoefSchedule Terminates
ACTION_CONSTRAINT PrintDone
CHECK_DEADLOCK FALSE
