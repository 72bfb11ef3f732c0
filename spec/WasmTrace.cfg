SPECIFICATION Spec
CONSTANT Cases <- Load
CHECK_DEADLOCK FALSE
