SPECIFICATION Spec0
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "C15"
  Stride = 2
