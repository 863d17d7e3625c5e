SPECIFICATION Spec
CONSTANT Props = {"C09"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
