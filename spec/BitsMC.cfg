CONSTANTS
 W = 8
 L = 1
SPECIFICATION Spec
INVARIANTS ElevenTrick WideTrick
CHECK_DEADLOCK FALSE
