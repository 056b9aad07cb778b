SPECIFICATION Spec0
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "C14"
  Stride = 2
