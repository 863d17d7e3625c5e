SPECIFICATION Spec
CONSTANT Props = {"C10"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
