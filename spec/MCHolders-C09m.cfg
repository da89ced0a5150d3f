SPECIFICATION Spec
CONSTANTS Holders={1} Shapes={"SMA","BOP"} MaxUnits=2 Ready=1 Features={"setup","file","stream","misuse"}
INVARIANTS HeapAccounted FilesWellFormed Budget StreamsValid First
PROPERTIES Quiet OthersKept
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
