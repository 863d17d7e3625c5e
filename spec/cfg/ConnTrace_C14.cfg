SPECIFICATION Spec
CONSTANT Props = {"C14"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
