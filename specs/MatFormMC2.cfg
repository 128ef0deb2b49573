SPECIFICATION Spec
CONSTANT NT = 2
INVARIANTS Built Symmetric SameFunction Compressed
CHECK_DEADLOCK FALSE
