SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Arithmetic
CONSTANTS
  Base = 3
  Upto = 130
