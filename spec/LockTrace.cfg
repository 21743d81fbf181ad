SPECIFICATION Spec
CONSTANT NC = 6
INVARIANTS SafeLocks
CONSTRAINT Progress
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
