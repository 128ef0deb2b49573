SPECIFICATION Spec
CONSTANT NT = 1
INVARIANTS Built Symmetric SameFunction Compressed
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
