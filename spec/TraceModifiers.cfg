SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Faulty = {}
