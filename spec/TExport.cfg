SPECIFICATION Spec
CONSTRAINT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
