SPECIFICATION Spec
CONSTANT Props = {"C01"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
