SPECIFICATION Spec
CONSTANTS Period=3 Values={0,1} MaxLen=6 Saving=FALSE Fault="short"
INVARIANTS Answered
CHECK_DEADLOCK FALSE
