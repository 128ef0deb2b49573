SPECIFICATION TSpec
CONSTANTS BS = 320
 Box0 = 32
 Mu0 = 10
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
