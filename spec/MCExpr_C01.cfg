SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "C01"
