SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- FqStart
  Fails <- FqFails
  Apply <- FqApply
  Tag <- FqTag
