SPECIFICATION Spec
CONSTANT Files <- AllFiles
CHECK_DEADLOCK FALSE
