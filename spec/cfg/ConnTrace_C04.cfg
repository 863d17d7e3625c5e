SPECIFICATION Spec
CONSTANT Props = {"C04"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
