SPECIFICATION Spec
CONSTANTS Period=4 Values={0,1,2} MaxLen=9 Saving=FALSE Fault="none"
INVARIANTS Ring Count Summed Extreme Answered
CHECK_DEADLOCK FALSE
