SPECIFICATION Spec
CONSTANT Props = {"C05"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
