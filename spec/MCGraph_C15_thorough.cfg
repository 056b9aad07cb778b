SPECIFICATION Spec
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "C15"
  Stride = 1
