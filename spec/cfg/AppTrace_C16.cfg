SPECIFICATION Spec
CONSTANT Props = {"C16"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
