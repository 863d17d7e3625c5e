SPECIFICATION Spec
CONSTANT Props = {"C12"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
