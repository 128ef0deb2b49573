SPECIFICATION MCSpec
CONSTANTS Params <- TimeParams
 Starts <- TimeStarts
 CVals = {0, 2}
 VVals = {0, 1}
 Dts = {0, 1}
 Emit = TRUE
VIEW View
INVARIANTS TypeOK MonitorsHold StatusTrue RoundsBounded
PROPERTIES MeritMonotone NoQPAfterStop BudgetKept BoxSchedule QPBoxOK CoefGrow QPCurrent Terminates
ACTION_CONSTRAINT PrintDone
CHECK_DEADLOCK FALSE
