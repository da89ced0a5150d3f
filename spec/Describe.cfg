SPECIFICATION Spec
INVARIANTS DescribedAreFunctions
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
