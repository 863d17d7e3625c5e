SPECIFICATION Spec
CONSTANT Props = {"C07"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
