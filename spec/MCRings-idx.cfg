SPECIFICATION Spec
CONSTANTS Period=2 Values={0,1} MaxLen=4 Saving=TRUE Fault="idx"
INVARIANTS Answered
CHECK_DEADLOCK FALSE
