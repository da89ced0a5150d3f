SPECIFICATION TraceSpec
INVARIANTS HeapAccounted FilesWellFormed HandleKind
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
