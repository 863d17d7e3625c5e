SPECIFICATION Spec
CONSTANT Props = {"C15"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
