SPECIFICATION Spec
CONSTANTS Period=2 Values={0,1,2} MaxLen=5 Saving=TRUE Fault="none"
INVARIANTS Ring Count Summed Extreme Answered
CHECK_DEADLOCK FALSE
