SPECIFICATION Spec0
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "C13"
  Stride = 2
