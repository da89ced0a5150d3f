SPECIFICATION Spec
CONSTANTS Handles={1} Fns={"SMA"} Slots={1} MaxUnits=5 Ready=2 MaxRecs=0 Steps={1,2,3} Features={"chunk"}
INVARIANTS HeapAccounted FilesWellFormed HandleKind HistoriesArePrefixes RecordsArePrefixes Budget First
PROPERTY Isolation
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
