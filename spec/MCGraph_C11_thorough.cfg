SPECIFICATION Spec
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "C11"
  Stride = 1
