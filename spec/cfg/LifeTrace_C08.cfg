SPECIFICATION Spec
CONSTANT Props = {"C08"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
