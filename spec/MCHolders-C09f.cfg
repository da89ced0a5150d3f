SPECIFICATION Spec
CONSTANTS Holders={1,2} Shapes={"SMA"} MaxUnits=1 Ready=1 Features={"file","stream"}
INVARIANTS HeapAccounted FilesWellFormed Budget StreamsValid First
PROPERTIES Quiet OthersKept
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
