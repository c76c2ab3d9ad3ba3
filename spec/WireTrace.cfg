SPECIFICATION Spec
CONSTANT Bug = "none"
CHECK_DEADLOCK FALSE
