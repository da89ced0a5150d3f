SPECIFICATION Spec
CONSTANTS Handles={1,2} Fns={"SMA", "RSI"} Slots={1} MaxUnits=2 Ready=2 MaxRecs=1 Steps={1} Features={"file", "chunk"}
INVARIANTS HeapAccounted FilesWellFormed HandleKind HistoriesArePrefixes RecordsArePrefixes Budget First
PROPERTY Isolation
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
