SPECIFICATION Spec
CONSTANTS Period=3 Values={0,1} MaxLen=7 Saving=TRUE Fault="none"
INVARIANTS Ring Count Summed Extreme Answered
CHECK_DEADLOCK FALSE
