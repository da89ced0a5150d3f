SPECIFICATION Spec
CONSTANTS Ids={0,1,2} Candles={0,1,2}
INVARIANT TypeOK First
PROPERTIES OneEntry Rejected Reset
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
