SPECIFICATION Spec
CONSTANTS MaxN = 2  MaxQ = 3  Rich = TRUE
INVARIANTS RoundOK DiffOK RestOK TurnOK RigidOK NearOK RowsOK BandOK VelOK
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
