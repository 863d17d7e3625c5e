SPECIFICATION Spec
CONSTANT Props = {"C02"}
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
