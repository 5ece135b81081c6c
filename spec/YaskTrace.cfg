SPECIFICATION Spec
VIEW View
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
