SPECIFICATION Spec
CONSTANTS Period=3 Values={0,1,2} MaxLen=7 Saving=FALSE Fault="none"
INVARIANTS Ring Count Summed Extreme Answered
CHECK_DEADLOCK FALSE
