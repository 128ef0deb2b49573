SPECIFICATION Spec
CONSTANT Lvs = 48
INVARIANTS HasError NothingLost Shares Positive Dense Sharp
CHECK_DEADLOCK FALSE
