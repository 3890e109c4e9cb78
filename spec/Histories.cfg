SPECIFICATION Spec
VIEW View
INVARIANT AsDeclared
PROPERTY Permitted
CHECK_DEADLOCK FALSE
