SPECIFICATION Spec
CONSTANT Props = {"C06"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
