SPECIFICATION Spec
CONSTANT ADVFLAGS = {"R", "W", "A", "C", "-", "N", "+", "S", "I", "E", "B", "T"}
VIEW View
PROPERTIES FailFree EraseOnlyAsked NoRemoval CreateOnlyAllowed Exclusive MustExist Access
CHECK_DEADLOCK FALSE
