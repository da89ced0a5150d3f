SPECIFICATION Spec
CONSTANTS Threads={1,2} MaxUnits=2 Ready=1 Scratch=TRUE
INVARIANTS Alone
CHECK_DEADLOCK FALSE
