SPECIFICATION Spec
CONSTANT Props = {"C03"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
