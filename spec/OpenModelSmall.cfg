SPECIFICATION Spec
CONSTANT ADVFLAGS = {"R", "W", "A", "C", "N", "E", "B"}
VIEW View
PROPERTIES FailFree EraseOnlyAsked NoRemoval CreateOnlyAllowed Exclusive MustExist Access
CHECK_DEADLOCK FALSE
