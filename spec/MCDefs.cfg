SPECIFICATION Spec
INVARIANT Inv
PROPERTY Refused
VIEW View
CHECK_DEADLOCK FALSE
