SPECIFICATION Spec
CONSTANTS Holders={1} Shapes={"BOP","ADOSC","AROON","ACCBANDS","ACOS","SMA","HT_PHASOR","MINMAX","BBANDS","ADD","BETA"} MaxUnits=2 Ready=1 Features={"setup","misuse","call","stream"}
INVARIANTS HeapAccounted FilesWellFormed Budget StreamsValid First
PROPERTIES Quiet OthersKept
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
