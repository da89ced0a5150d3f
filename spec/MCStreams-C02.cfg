SPECIFICATION Spec
CONSTANTS Handles={1,2} Fns={"SMA"} Slots={1} MaxUnits=3 Ready=2 MaxRecs=2 Steps={1} Features={"file"}
INVARIANTS HeapAccounted FilesWellFormed HandleKind HistoriesArePrefixes RecordsArePrefixes Budget First
PROPERTY Isolation
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
