SPECIFICATION MCSpec
CONSTANTS Params <- SmallParams
 Starts <- SmallStarts
 CVals = {0, 2}
 VVals = {0, 2}
 Dts = {0}
 Emit = TRUE
VIEW View
INVARIANTS TypeOK MonitorsHold StatusTrue RoundsBounded
PROPERTIES MeritMonotone NoQPAfterStop BudgetKept BoxSchedule QPBoxOK CoefGrow QPCurrent Terminates
ACTION_CONSTRAINT PrintDone
CHECK_DEADLOCK FALSE
