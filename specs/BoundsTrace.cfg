SPECIFICATION TSpec
CONSTANTS EqTol = 11
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
