SPECIFICATION Spec
CONSTANTS Holders={1,2} Shapes={"SMA","BBANDS"} MaxUnits=2 Ready=2 Features={"file","stream"}
INVARIANTS HeapAccounted FilesWellFormed Budget StreamsValid First
PROPERTIES Quiet OthersKept
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
