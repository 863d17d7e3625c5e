SPECIFICATION Spec
CONSTANT Props = {"C13"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
