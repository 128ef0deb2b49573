SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS LifeOK LinOK EncOK SecondOK FeasSome
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
