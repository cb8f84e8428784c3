CONSTANT NSlots = 4
SPECIFICATION Spec
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
