SPECIFICATION Spec0
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "C12"
  Stride = 2
