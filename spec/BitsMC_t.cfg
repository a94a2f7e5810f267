CONSTANTS
 W = 12
 L = 2
SPECIFICATION Spec
INVARIANTS ElevenTrick WideTrick
CHECK_DEADLOCK FALSE
