SPECIFICATION Spec

CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
