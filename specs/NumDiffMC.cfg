SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS FwdExact CenExact CenHExact NestExact
PROPERTIES OnlySetWrites
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
