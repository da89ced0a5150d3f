SPECIFICATION Spec
CONSTANTS Threads={1,2,3} MaxUnits=3 Ready=1 Scratch=FALSE
INVARIANTS HeapAccounted HandleKind Alone NoConflict Stable HistoriesOwn Budget
CHECK_DEADLOCK FALSE
