SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
